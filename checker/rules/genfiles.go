package rules

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"verif/checker/absint"
)

// collect lists the directories and files that the generators make.
func (c *Ctx) collect(m *member, cover map[string]map[string]bool) {
	in := m.in
	r := &renderer{in}
	by := map[*T]*genFile{}
	type source struct{ text, user, name string }
	srcs := map[*T]source{}
	encs := map[*T]*T{}
	bytesOf := map[*T]source{}
	bufs := map[*T]*genFile{}
	bad := func(e *absint.Effect, format string, a ...any) {
		if m.err == "" {
			m.err = e.Pos + ": " + fmt.Sprintf(format, a...)
		}
	}
	strip := func(t *T) *T {
		for t.Op == absint.OIface {
			t = t.Args[0]
		}
		return t
	}
	create := func(e *absint.Effect, pt *T) *genFile {
		p, err := r.text(pt)
		if err != nil {
			bad(e, "%v", err)
		}
		f := &genFile{Path: path.Clean(p), Pos: e.Pos, PathT: pt}
		for i, g := range m.files {
			if g.Path == f.Path {
				m.files = append(m.files[:i:i], m.files[i+1:]...)
				m.twice = append(m.twice, f.Path+" ("+g.Pos+" and "+f.Pos+")")
				break
			}
		}
		m.files = append(m.files, f)
		m.order = append(m.order, event{Create: f})
		return f
	}
	handle := func(e *absint.Effect, t *T) *genFile {
		t = strip(t)
		if f := by[t]; f != nil {
			return f
		}
		if t.Op == absint.OAlloc {
			if bufs[t] == nil {
				bufs[t] = &genFile{Path: "buffer"}
			}
			return bufs[t]
		}
		bad(e, "cannot tell what %s writes to", e.Name)
		return &genFile{}
	}
	put := func(f *genFile, s source) {
		if s.user != "" {
			f.From = s.user
			return
		}
		f.Segs = append(f.Segs, seg{s.text, s.name, 1})
	}
	embedFile := func(e *absint.Effect) source {
		files, dir, err := c.fsOf(in, e.Args[0])
		if err != nil {
			bad(e, "%v", err)
			return source{}
		}
		n, err := r.text(e.Args[1])
		if err != nil {
			bad(e, "%v", err)
			return source{}
		}
		t, ok := files[path.Clean(n)]
		if !ok {
			bad(e, "%s is not embedded", n)
		}
		return source{text: t, name: path.Join(dir, n)}
	}
	for _, e := range m.st.Effects {
		if e.Kind == "loop" {
			for _, n := range []string{"os.Create", "os.MkdirAll", "os.WriteFile", "(*text/template.Template).ExecuteTemplate", "io.Copy"} {
				if len(absint.Calls([]*absint.Effect{e}, n)) > 0 {
					bad(e, "how often %s is called is not known", n)
				}
			}
			continue
		}
		if e.Kind != "call" {
			continue
		}
		switch e.Name {
		case "os.MkdirAll", "os.Mkdir":
			p, err := r.text(e.Args[0])
			if err != nil {
				bad(e, "%v", err)
				continue
			}
			m.dirs = append(m.dirs, path.Clean(p))
			m.order = append(m.order, event{Dir: path.Clean(p), All: e.Name == "os.MkdirAll"})
		case "os.Create", "os.OpenFile":
			by[e.Res[0]] = create(e, e.Args[0])
		case "os.Open":
			p, err := r.text(e.Args[0])
			if err != nil {
				bad(e, "%v", err)
			}
			srcs[e.Res[0]] = source{user: path.Clean(p)}
		case "os.ReadFile":
			p, err := r.text(e.Args[0])
			if err != nil {
				bad(e, "%v", err)
			}
			bytesOf[e.Res[0]] = source{user: path.Clean(p)}
		case "(embed.FS).Open", "(io/fs.FS).Open":
			srcs[e.Res[0]] = embedFile(e)
		case "(embed.FS).ReadFile", "io/fs.ReadFile":
			bytesOf[e.Res[0]] = embedFile(e)
		case "io.ReadAll":
			bytesOf[e.Res[0]] = srcs[strip(e.Args[0])]
		case "os.WriteFile":
			f := create(e, e.Args[0])
			if s, ok := bytesOf[e.Args[1]]; ok {
				put(f, s)
			} else if e.Args[1].Op == absint.ORes {
				if b := callByResult(m.st.Effects, e.Args[1].Aux); b != nil && b.Name == "(*bytes.Buffer).Bytes" && bufs[b.Args[0]] != nil {
					g := bufs[b.Args[0]]
					f.Segs, f.Set, f.Name, f.Data, f.St, f.XML = g.Segs, g.Set, g.Name, g.Data, g.St, g.XML
				} else {
					bad(e, "what is written is not known")
				}
			} else {
				bad(e, "what is written is not known")
			}
		case "io.Copy":
			f := handle(e, e.Args[0])
			s, ok := srcs[strip(e.Args[1])]
			if !ok {
				if g := bufs[strip(e.Args[1])]; g != nil {
					f.Segs, f.Set, f.Name, f.Data, f.St, f.XML = g.Segs, g.Set, g.Name, g.Data, g.St, g.XML
					continue
				}
				bad(e, "what is copied is not known")
			}
			put(f, s)
		case "io.WriteString", "(*os.File).WriteString":
			f := handle(e, e.Args[0])
			s, err := r.text(e.Args[1])
			if err != nil {
				bad(e, "%v", err)
			}
			f.Segs = append(f.Segs, seg{s, e.Pos, 0})
		case "(*os.File).Write", "(io.Writer).Write":
			f := handle(e, e.Args[0])
			if s, ok := bytesOf[e.Args[1]]; ok {
				put(f, s)
			} else {
				bad(e, "what is written is not known")
			}
		case "encoding/xml.NewEncoder":
			encs[e.Res[0]] = e.Args[0]
		case "(*encoding/xml.Encoder).Encode":
			f := handle(e, encs[e.Args[0]])
			f.XML = e.Args[1]
			f.St = e.St
		case "(*text/template.Template).ExecuteTemplate", "(*text/template.Template).Execute":
			f := handle(e, e.Args[1])
			data := e.Args[len(e.Args)-1]
			set, err := c.loadSet(in, m.st.Effects, e, e.Args[0])
			if err != nil {
				f.Err = e.Pos + ": " + err.Error()
				continue
			}
			name := set.name
			if strings.HasSuffix(e.Name, ".ExecuteTemplate") {
				if name, err = r.text(e.Args[2]); err != nil {
					f.Err = err.Error()
					continue
				}
			}
			f.Set, f.Name, f.St = set, name, e.St
			f.Data = tval{t: data, typ: nil}
			if data.Op == absint.OIface {
				f.Data = tval{t: data.Args[0], typ: data.Typ}
			}
			segs, err := c.expand(in, e.St, set, name, f.Data, cover)
			f.Segs = append(f.Segs, segs...)
			if err != nil {
				f.Err = err.Error()
			}
		case "(*os.File).Close", "(io.ReadCloser).Close", "(io.Closer).Close", "(*os.File).Stat", "os.Stat", "(*os.File).Sync", "(*encoding/xml.Encoder).Flush", "(*encoding/xml.Encoder).Close", "(io/fs.File).Close":
		default:
			for _, a := range e.Args {
				if by[strip(a)] != nil {
					bad(e, "what %s does to a file is not known", e.Name)
				}
			}
		}
	}
	sort.SliceStable(m.files, func(i, j int) bool { return m.files[i].Path < m.files[j].Path })
}

// event is the making of a directory or file.
type event struct {
	Dir    string
	All    bool
	Create *genFile
}
