package absint

import (
	"fmt"
	"io"
	"sort"
)

// DumpMem makes dumps include memory.
var DumpMem bool

// DumpState prints a state for debugging.
func (in *Interp) DumpState(w io.Writer, st *State, ind string) {
	fmt.Fprintf(w, "%sfacts: %v\n", ind, st.F.List())
	if DumpMem {
		in.dumpMem(w, st, ind)
	}
	in.dumpEffects(w, st.Effects, ind, map[*Loop]bool{})
}

func (in *Interp) dumpMem(w io.Writer, st *State, ind string) {
	var cs []*Term
	for c := range st.Mem {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		fmt.Fprintf(w, "%s  [%s] = %s\n", ind, c, st.Mem[c])
	}
	cs = nil
	for c := range st.Maps {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		fmt.Fprintf(w, "%s  {%s} = %s\n", ind, c, st.Maps[c])
	}
	if len(st.Ver) > 0 {
		fmt.Fprintf(w, "%s  ver %v\n", ind, st.Ver)
	}
}

func (in *Interp) dumpEffects(w io.Writer, es []*Effect, ind string, seen map[*Loop]bool) {
	for _, e := range es {
		fmt.Fprintf(w, "%s- %s %s %v -> %v @%s\n", ind, e.Kind, e.Name, e.Args, e.Res, e.Pos)
		if e.Loop != nil {
			l := e.Loop
			fmt.Fprintf(w, "%s  loop %s k=%s bound=%v regions=%v\n", ind, l.ID, l.K, l.Bound, l.Regions)
			for _, v := range l.Vars {
				fmt.Fprintf(w, "%s    var %s init=%s start=%s step=%d\n", ind, v.Name, v.Init, v.Start, v.Step)
			}
			for i, p := range l.Paths {
				fmt.Fprintf(w, "%s    path %d %s facts %v res %v\n", ind, i, p.Kind, p.Facts.List()[min(p.NF, len(p.Facts.List())):], p.Res)
				for _, v := range l.Vars {
					if p.Next[v] != nil {
						fmt.Fprintf(w, "%s      %s' = %s\n", ind, v.Name, p.Next[v])
					}
				}
				if DumpMem {
					in.dumpMem(w, p.St, ind+"      ")
				}
				in.dumpEffects(w, p.Effects, ind+"      ", seen)
			}
		}
	}
}
