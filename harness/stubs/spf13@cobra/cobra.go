// Package cobra stands in for github.com/spf13/cobra: commands with string flags of the
// form --name=value.
package cobra

import "strings"

// Args are the arguments of the command line.
var Args []string

type FlagSet struct {
	names []string
	vars  []*string
}

func (f *FlagSet) StringVar(p *string, name, value, usage string) {
	*p = value
	f.names = append(f.names, name)
	f.vars = append(f.vars, p)
}

func (f *FlagSet) StringVarP(p *string, name, short, value, usage string) {
	f.StringVar(p, name, value, usage)
}

func (f *FlagSet) set(name, value string) bool {
	for i, n := range f.names {
		if n == name {
			*f.vars[i] = value
			return true
		}
	}
	return false
}

type Command struct {
	Use, Short, Long string
	Run              func(cmd *Command, args []string)
	subs             []*Command
	own, persist     FlagSet
}

func (c *Command) Flags() *FlagSet           { return &c.own }
func (c *Command) PersistentFlags() *FlagSet { return &c.persist }
func (c *Command) AddCommand(s ...*Command)  { c.subs = append(c.subs, s...) }

func (c *Command) Execute() error {
	var cmd *Command
	for _, a := range Args {
		if strings.HasPrefix(a, "--") {
			continue
		}
		for _, s := range c.subs {
			if n, _, _ := strings.Cut(s.Use, " "); n == a {
				cmd = s
			}
		}
	}
	for _, a := range Args {
		if n, v, ok := strings.Cut(strings.TrimPrefix(a, "--"), "="); ok {
			if !c.persist.set(n, v) && (cmd == nil || !cmd.own.set(n, v) && !cmd.persist.set(n, v)) {
				return nil
			}
		}
	}
	if cmd != nil && cmd.Run != nil {
		cmd.Run(cmd, nil)
	}
	return nil
}
