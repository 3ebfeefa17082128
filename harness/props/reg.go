// Package props holds one exploration per property.
package props

import "verifharness/lib"

var all = map[string]*lib.Prop{}

func reg(p *lib.Prop) { all[p.ID] = p }

func Get(id string) *lib.Prop { return all[id] }
