package absint

import (
	"fmt"
	"sort"
	"strings"
)

// merge joins outcomes that differ only in what is known about them.
func (in *Interp) merge(outs []Outcome, mark int) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		in.collect(o, mark)
		k := in.outcomeKey(o)
		if i, ok := groups[k]; ok {
			res[i].St.F = in.joinFacts(res[i].St.F, o.St.F)
			continue
		}
		groups[k] = len(res)
		res = append(res, o)
	}
	return res
}

// collect drops what the state says about objects born after the mark that nothing refers to any more.
func (in *Interp) collect(o Outcome, mark int) {
	st := o.St
	live := map[*Term]bool{}
	var work []*Term
	see := func(t *Term) {
		seen := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if in.object(t) && !live[t] {
				live[t] = true
				work = append(work, t)
			}
			if t.Op == OMake && t.Idx == 1 {
				if a := in.termByID(serial(strings.TrimPrefix(t.Aux, "arr:"))); a != nil {
					w(a)
				}
			}
			for _, a := range t.Args {
				w(a)
			}
		}
		w(t)
	}
	for _, r := range o.Res {
		see(r)
	}
	byRoot := map[*Term][]*Term{}
	dead := func(root *Term) *Term {
		r, _ := rootOf(root)
		for r.Op == OIndexAddr {
			l := r.Args[0]
			if l.Op == OMake && l.Idx == 1 {
				if a := in.termByID(serial(strings.TrimPrefix(l.Aux, "arr:"))); a != nil {
					r, _ = rootOf(a)
					continue
				}
			}
			r = l
			break
		}
		return r
	}
	for c, v := range st.Mem {
		r := dead(c)
		if in.object(r) && in.bornAfter(r, mark) {
			byRoot[r] = append(byRoot[r], c)
			continue
		}
		see(v)
		see(c)
	}
	for m, c := range st.Maps {
		if in.object(m) && in.bornAfter(m, mark) {
			byRoot[m] = append(byRoot[m], m)
			continue
		}
		see(c)
	}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range byRoot[r] {
			if v, ok := st.Mem[c]; ok {
				see(v)
				see(c)
			}
			if v, ok := st.Maps[c]; ok {
				see(v)
			}
		}
	}
	for r, cs := range byRoot {
		if live[r] {
			continue
		}
		for _, c := range cs {
			delete(st.Mem, c)
			delete(st.Maps, c)
		}
		if r.Op == OAlloc {
			delete(st.Ver, "A:"+r.Aux)
		}
	}
}

func (in *Interp) object(t *Term) bool {
	return t.Op == OAlloc || t.Op == OMap || t.Op == OMake && t.Idx != 1
}

func (in *Interp) outcomeKey(o Outcome) string {
	var b strings.Builder
	b.WriteString(o.Kind)
	for _, r := range o.Res {
		fmt.Fprintf(&b, ",%d", r.ID)
	}
	b.WriteByte('|')
	var ks []string
	for c, v := range o.St.Mem {
		ks = append(ks, fmt.Sprintf("%d=%d", c.ID, v.ID))
	}
	for c, v := range o.St.Maps {
		ks = append(ks, fmt.Sprintf("m%d=%d", c.ID, v.ID))
	}
	for c, v := range o.St.Ver {
		ks = append(ks, c+"="+v)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	for _, e := range o.St.Effects {
		fmt.Fprintf(&b, "|%p", e)
	}
	return b.String()
}

// joinFacts keeps what both know.
func (in *Interp) joinFacts(a, b *Facts) *Facts {
	f := newFacts()
	for _, l := range a.seq {
		if b.Decide(in.U, l) == True {
			f.Assume(in.U, l, true)
		}
	}
	for _, l := range b.seq {
		if a.Decide(in.U, l) == True {
			f.Assume(in.U, l, true)
		}
	}
	return f
}
