module github.com/buger/goterm

go 1.25
