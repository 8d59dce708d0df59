module verif

go 1.25

require (
	github.com/braintree/manners v0.0.0
	github.com/buger/goterm v0.0.0
	github.com/gocraft/health v0.0.0
	github.com/gocraft/web v0.0.0
	github.com/spf13/cobra v0.0.0
)

replace github.com/gocraft/health => /repo

replace github.com/gocraft/web => ./shims/web

replace github.com/braintree/manners => ./shims/manners

replace github.com/buger/goterm => ./shims/goterm

replace github.com/spf13/cobra => ./shims/cobra
