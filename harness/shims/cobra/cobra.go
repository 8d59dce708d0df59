// Package cobra is an offline stand-in for github.com/spf13/cobra (not
// installed here): commands one level deep with string, int and bool flags.
package cobra

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"strings"
)

// FlagSet stands for pflag.FlagSet.
type FlagSet struct{ defs []func(*flag.FlagSet) }

func (f *FlagSet) StringVar(p *string, name, value, usage string) {
	*p = value
	f.defs = append(f.defs, func(s *flag.FlagSet) { s.StringVar(p, name, value, usage) })
}
func (f *FlagSet) StringVarP(p *string, name, short, value, usage string) {
	f.StringVar(p, name, value, usage)
	f.defs = append(f.defs, func(s *flag.FlagSet) { s.StringVar(p, short, value, usage) })
}
func (f *FlagSet) String(name, value, usage string) *string {
	p := new(string)
	f.StringVar(p, name, value, usage)
	return p
}
func (f *FlagSet) IntVar(p *int, name string, value int, usage string) {
	*p = value
	f.defs = append(f.defs, func(s *flag.FlagSet) { s.IntVar(p, name, value, usage) })
}
func (f *FlagSet) BoolVar(p *bool, name string, value bool, usage string) {
	*p = value
	f.defs = append(f.defs, func(s *flag.FlagSet) { s.BoolVar(p, name, value, usage) })
}

type Command struct {
	Use, Short, Long, Example string
	Aliases                   []string
	Run                       func(cmd *Command, args []string)
	RunE                      func(cmd *Command, args []string) error
	flags, persistent         FlagSet
	sub                       []*Command
	args                      []string
}

func (c *Command) Flags() *FlagSet           { return &c.flags }
func (c *Command) PersistentFlags() *FlagSet { return &c.persistent }
func (c *Command) AddCommand(cs ...*Command) { c.sub = append(c.sub, cs...) }
func (c *Command) SetArgs(a []string)        { c.args = a }
func (c *Command) Name() string              { return strings.Fields(c.Use + " x")[0] }
func (c *Command) Execute() error {
	args := c.args
	if args == nil {
		args = os.Args[1:]
	}
	var flags, rest []string
	for i := 0; i < len(args); i++ {
		switch {
		case strings.HasPrefix(args[i], "-") && (strings.Contains(args[i], "=") || i+1 == len(args)):
			flags = append(flags, args[i])
		case strings.HasPrefix(args[i], "-"):
			flags = append(flags, args[i], args[i+1])
			i++
		default:
			rest = append(rest, args[i])
		}
	}
	cmd := c
	if len(rest) > 0 {
		for _, s := range c.sub {
			if s.Name() == rest[0] {
				cmd = s
				rest = rest[1:]
				break
			}
		}
	}
	set := flag.NewFlagSet(cmd.Name(), flag.ContinueOnError)
	set.SetOutput(io.Discard)
	for _, d := range c.persistent.defs {
		d(set)
	}
	if cmd != c {
		for _, d := range cmd.persistent.defs {
			d(set)
		}
	}
	for _, d := range cmd.flags.defs {
		d(set)
	}
	if err := set.Parse(flags); err != nil {
		fmt.Fprintln(os.Stderr, "Error:", err)
		return err
	}
	switch {
	case cmd.RunE != nil:
		return cmd.RunE(cmd, rest)
	case cmd.Run != nil:
		cmd.Run(cmd, rest)
		return nil
	}
	return errors.New("nothing to run")
}
