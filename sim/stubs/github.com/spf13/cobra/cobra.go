// Package cobra stands in for github.com/spf13/cobra: sub-commands and string
// flags, with the arguments taken from the simulated process.
package cobra

import (
	"fmt"
	"os"
	"strings"
)

type FlagSet struct {
	strs map[string]*string
}

func (f *FlagSet) StringVar(p *string, name, value, usage string) {
	*p = value
	if f.strs == nil {
		f.strs = map[string]*string{}
	}
	f.strs[name] = p
}

type Command struct {
	Use   string
	Short string
	Long  string
	Run   func(cmd *Command, args []string)

	flags, pflags FlagSet
	subs          []*Command
}

func (c *Command) Flags() *FlagSet           { return &c.flags }
func (c *Command) PersistentFlags() *FlagSet { return &c.pflags }
func (c *Command) AddCommand(cs ...*Command) { c.subs = append(c.subs, cs...) }

func (c *Command) Execute() error {
	args := strings.Fields(os.Getenv("ARGS"))
	cmd := c
	var rest []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		if strings.HasPrefix(a, "--") {
			k, v, ok := strings.Cut(a[2:], "=")
			if !ok && i+1 < len(args) {
				i++
				v = args[i]
			}
			p := c.pflags.strs[k]
			if p == nil {
				p = cmd.flags.strs[k]
			}
			if p == nil {
				return fmt.Errorf("unknown flag: --%s", k)
			}
			*p = v
			continue
		}
		found := false
		for _, s := range cmd.subs {
			if strings.Fields(s.Use)[0] == a {
				cmd, found = s, true
				break
			}
		}
		if !found {
			rest = append(rest, a)
		}
	}
	if cmd.Run != nil {
		cmd.Run(cmd, rest)
	}
	return nil
}
