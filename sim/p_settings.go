package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
)

// C15: histories of reading, translating and replacing the settings of XFA forms.

func parseSettings(c *Ctx, name, text string) (v interface{}, err error, ok bool) {
	ok = c.Call("ParseXFA "+name, func() {
		switch name {
		case "config":
			v, err = xfa.ParseXFAConfig(text, false)
		case "localeSet":
			v, err = xfa.ParseXFALocaleSet(text, false)
		case "connectionSet":
			v, err = xfa.ParseXFAConnectionSet(text, false)
		case "stylesheet":
			v, err = xfa.ParseXFAStylesheet(text, false)
		}
	})
	return
}

func writeSettings(c *Ctx, v interface{}) (text string, err error, ok bool) {
	ok = c.Call("ToXFA", func() {
		switch x := v.(type) {
		case *types.XFAConfig:
			text, err = xfa.ConfigToXFA(x, false)
		case *types.XFALocaleSet:
			text, err = xfa.LocaleSetToXFA(x, false)
		case *types.XFAConnectionSet:
			text, err = xfa.ConnectionSetToXFA(x, false)
		case *types.XFAStylesheet:
			text, err = xfa.StylesheetToXFA(x, false)
		}
	})
	return
}

// translate writes settings and reads them again, with the library and without; want is
// the canonical text of what they say.
func (h *xhist) translate(name string, v interface{}, want string) (text string, ok bool) {
	c := h.c
	keep := showSettings(v)
	text, err, done := writeSettings(c, v)
	if !done {
		return
	}
	if err != nil {
		h.fail("refused", "writing %s: %v", name, err)
		return
	}
	if showSettings(v) != keep {
		h.fail("argument", "writing %s changes it", name)
		return
	}
	if t, _, done := writeSettings(c, v); !done || t != text {
		h.fail("differs", "writing %s twice gives two texts", name)
		return
	}
	ref, err := refSettings(name, []byte(text))
	if err != nil {
		h.fail("xml", "%s is written as %q: %v", name, clipS(text, 300), err)
		return
	}
	if g := showSettings(ref); g != want {
		h.fail("written", "%s is written so that it says\n %s, want\n %s", name, around(g, want), around(want, g))
		return
	}
	again, err, done := parseSettings(c, name, text)
	if !done {
		return
	}
	if g := showSettings(again); err != nil || g != want {
		h.fail("round", "%s that is written reads\n %s, want\n %s (%v)", name, around(g, want), around(want, g), err)
		return
	}
	return text, true
}

// settings reads them all.
func (h *xhist) settings() {
	c := h.c
	h.what = "read settings"
	enc, ok := h.encryption()
	if !ok {
		return
	}
	s := h.extract(enc)
	if s == nil || c.Failed() {
		return
	}
	m := streamsOf(s)
	for _, n := range setNames {
		if m[n] == nil {
			continue
		}
		v, err, done := parseSettings(c, n, string(m[n].Data))
		if !done {
			return
		}
		ref, rerr := refSettings(n, h.packet(n).data)
		if rerr != nil {
			h.fail("xml", "packet %s is not XML any more: %v", n, rerr)
			return
		}
		want := showSettings(ref)
		if g := showSettings(v); err != nil || g != want {
			h.fail("read", "%s reads\n %s, want\n %s (%v)", n, around(g, want), around(want, g), err)
			return
		}
		c.Count("settings_read", 1)
		if _, ok := h.translate(n, v, want); !ok {
			return
		}
	}
}

func setText(r *Rng) string {
	s := xfaValue(r)
	if r.P(3) {
		s += "\x00\xff"
	}
	return s
}

func setKey(r *Rng, more ...string) string {
	if len(more) > 0 && r.P(40) {
		return more[r.N(len(more))]
	}
	return setKeys[r.N(len(setKeys))]
}

func setNum(r *Rng) float64 {
	return []float64{0, 1, -1, 0.5, -2.25, 12, 1e21, 1e-7, 72, 100.125}[r.N(10)]
}

func setInt(r *Rng) int { return []int{0, 1, 2, -3, 30, 1 << 40}[r.N(6)] }

// setProps are properties of any kind.
func setProps(r *Rng, more ...string) map[string]interface{} {
	m := map[string]interface{}{}
	for r.P(55) {
		var v interface{}
		switch r.N(6) {
		case 0:
			v = r.P(50)
		case 1:
			v = setNum(r)
		case 2:
			v = setInt(r)
		default:
			t := strings.TrimSpace(setText(r))
			if t == "" {
				t = "x"
			}
			v = t
		}
		m[setKey(r, more...)] = v
	}
	return m
}

// makeSettings are new settings, as values.
func makeSettings(r *Rng, name string) interface{} {
	t := func() string {
		if r.P(35) {
			return ""
		}
		return setText(r)
	}
	switch name {
	case "config":
		c := &types.XFAConfig{}
		if r.P(70) {
			c.Properties = setProps(r)
		}
		if r.P(70) {
			p := &types.XFAConfigPresent{RenderPolicy: t(), EffectiveOutputPolicy: t()}
			if r.P(50) {
				p.PDF = &types.XFAConfigPDF{Version: t(), Compression: t(), Linearized: r.P(50), Encryption: t(), EmbedFonts: r.P(50), Tagged: r.P(50), Accessibility: r.P(50)}
			}
			if r.P(40) {
				p.XDP = &types.XFAConfigXDP{Version: t()}
			}
			if r.P(40) {
				p.Print = &types.XFAConfigPrint{PrinterName: t(), PrinterCap: t()}
			}
			if r.P(40) {
				p.Interactive = &types.XFAConfigInteractive{CurrentPage: setInt(r), Zoom: t(), ViewMode: t()}
			}
			if r.P(40) {
				p.Script = &types.XFAConfigScript{ContentType: t(), RunAt: t()}
			}
			c.Present = p
		}
		if r.P(40) {
			c.Validate = &types.XFAConfigValidate{ScriptTest: t(), NullTest: t(), FormatTest: t()}
		}
		if r.P(50) {
			c.Submit = &types.XFAConfigSubmit{Format: t(), Target: t(), Method: t(), EmbedPDF: r.P(50), XDPContent: t(), TextEncoding: t()}
			if r.P(60) {
				c.Submit.Properties = map[string]string{}
				for r.P(60) {
					c.Submit.Properties[setKey(r)] = t()
				}
			}
		}
		if r.P(40) {
			c.Destination = &types.XFAConfigDestination{Type: t(), Target: t()}
		}
		if r.P(40) {
			c.Acrobat = &types.XFAConfigAcrobat{AutoSave: r.P(50), AutoSaveTime: setInt(r), FormType: t(), Version: t()}
		}
		if r.P(40) {
			c.Common = &types.XFAConfigCommon{DataPrefix: t(), TimeStamp: t()}
		}
		if r.P(40) {
			c.Output = &types.XFAConfigOutput{Format: t(), Destination: t()}
		}
		if r.P(40) {
			c.Script = &types.XFAConfigScript{ContentType: t(), RunAt: t()}
		}
		if r.P(40) {
			c.Trace = &types.XFAConfigTrace{Enabled: r.P(50), Level: t()}
		}
		return c
	case "localeSet":
		s := &types.XFALocaleSet{Default: t()}
		for n := r.N(4); n > 0; n-- {
			l := types.XFALocale{Code: t(), Name: t()}
			if r.P(60) {
				l.Calendar = &types.XFACalendar{Symbols: t(), FirstDay: t(), Weekend: t()}
				for r.P(50) {
					if d := strings.TrimSpace(setText(r)); d != "" {
						l.Calendar.Holidays = append(l.Calendar.Holidays, d+r.Pick("", " holiday"))
					}
				}
			}
			if r.P(60) {
				l.Currency = &types.XFACurrency{Symbol: t(), Name: t(), Precision: setInt(r)}
			}
			if r.P(60) {
				l.DatePattern = &types.XFADatePattern{Format: t(), Symbol: t()}
			}
			if r.P(60) {
				l.TimePattern = &types.XFATimePattern{Format: t(), Symbol: t()}
			}
			if r.P(60) {
				l.NumberPattern = &types.XFANumberPattern{Format: t(), Symbol: t(), Grouping: t(), Decimal: t(), Precision: setInt(r)}
			}
			if r.P(60) {
				l.Text = &types.XFAText{Direction: t(), Encoding: t()}
			}
			s.Locales = append(s.Locales, l)
		}
		return s
	case "connectionSet":
		s := &types.XFAConnectionSet{}
		for n := r.N(4); n > 0; n-- {
			c := types.XFAConnection{Name: t(), Type: t()}
			if r.P(80) {
				c.Properties = setProps(r, "uri", "wsdl", "operation", "soapAction", "user", "password", "dsn", "query")
			}
			if r.P(60) {
				c.DataDescription = &types.XFADataDescription{Ref: t(), Schema: t(), Namespace: t()}
				if r.P(60) {
					c.DataDescription.Properties = setProps(r, "uri", "user", "url", "query")
				}
			}
			s.Connections = append(s.Connections, c)
		}
		return s
	}
	s := &types.XFAStylesheet{}
	for n := r.N(4); n > 0; n-- {
		st := types.XFAStyle{Name: t(), Type: t()}
		if r.P(85) {
			p := setProps(r)
			st.Properties = p
			if r.P(45) {
				p["font"] = &types.XFAStyleFont{Family: t(), Size: setNum(r), Weight: t(), Style: t(), Color: t(), Decoration: t()}
			}
			if r.P(45) {
				p["border"] = &types.XFAStyleBorder{Width: setNum(r), Style: t(), Color: t(), Radius: setNum(r)}
			}
			if r.P(45) {
				p["margin"] = &types.XFAMargin{Top: setNum(r), Right: setNum(r), Bottom: setNum(r), Left: setNum(r)}
			}
			if r.P(45) {
				p["padding"] = &types.XFAPadding{Top: setNum(r), Right: setNum(r), Bottom: setNum(r), Left: setNum(r)}
			}
			if r.P(45) {
				p["position"] = &types.XFAPosition{X: setNum(r), Y: setNum(r)}
			}
			if r.P(45) {
				p["size"] = &types.XFASize{Width: setNum(r), Height: setNum(r)}
			}
		}
		s.Styles = append(s.Styles, st)
	}
	return s
}

// wantSettings is the canonical text of what settings say once they are written: texts
// are as XML can hold them, properties are texts (in styles, numbers and true and false
// are that), and lists are there even when they are empty.
func wantSettings(v interface{}) string {
	texts := func(m map[string]interface{}) map[string]interface{} {
		out := map[string]interface{}{}
		for k, v := range m {
			out[k] = strings.TrimSpace(xmlValid(fmt.Sprint(v)))
		}
		return out
	}
	switch x := v.(type) {
	case *types.XFAConfig:
		y := *x
		y.Properties = texts(x.Properties)
		return xmlSettings(&y)
	case *types.XFALocaleSet:
		y := *x
		y.Locales = append([]types.XFALocale{}, x.Locales...)
		return xmlSettings(&y)
	case *types.XFAConnectionSet:
		y := *x
		y.Connections = append([]types.XFAConnection{}, x.Connections...)
		for i := range y.Connections {
			c := &y.Connections[i]
			c.Properties = texts(c.Properties)
			if c.DataDescription != nil {
				d := *c.DataDescription
				d.Properties = texts(d.Properties)
				c.DataDescription = &d
			}
		}
		return xmlSettings(&y)
	case *types.XFAStylesheet:
		y := *x
		y.Styles = append([]types.XFAStyle{}, x.Styles...)
		for i := range y.Styles {
			p := map[string]interface{}{}
			for k, v := range y.Styles[i].Properties {
				switch v.(type) {
				case string, int, float64, bool:
					v = styleValue(strings.TrimSpace(xmlValid(fmt.Sprint(v))))
				}
				p[k] = v
			}
			y.Styles[i].Properties = p
		}
		return xmlSettings(&y)
	}
	return ""
}

// xmlSettings is the canonical text when every text is one that XML can hold. (JSON has
// its own way with bytes that are no characters.)
func xmlSettings(v interface{}) string {
	s := showSettings(v)
	return strings.NewReplacer(`\u0000`, "\ufffd", `\ufffd`, "\ufffd").Replace(s)
}

// edit gives packets other settings.
func (h *xhist) edit(op Op) {
	c := h.c
	r := NewRng(uint64(op.I(0)))
	h.what = "replace settings"
	enc, ok := h.encryption()
	if !ok {
		return
	}
	s := h.extract(enc)
	if s == nil || c.Failed() {
		return
	}
	m := streamsOf(s)
	changes := map[string]func([]byte) string{}
	for _, n := range setNames {
		if !r.P(65) {
			continue
		}
		v := makeSettings(r, n)
		text, ok := h.translate(n, v, wantSettings(v))
		if !ok {
			return
		}
		if m[n] == nil {
			continue
		}
		m[n].Data = []byte(text)
		changes[n] = func(got []byte) string {
			if string(got) != text {
				return fmt.Sprintf("%q, want %q", clip(diffAt(got, []byte(text)), 200), clip(diffAt([]byte(text), got), 200))
			}
			return ""
		}
		c.Count("settings_replaced", 1)
	}
	for _, n := range streamNames {
		if m[n] != nil && changes[n] == nil {
			keep := append([]byte(nil), m[n].Data...)
			changes[n] = func(got []byte) string {
				if !bytes.Equal(got, keep) {
					return fmt.Sprintf("%q, want %q", clip(diffAt(got, keep), 200), clip(diffAt(keep, got), 200))
				}
				return ""
			}
			if len(keep) == 0 {
				delete(changes, n)
			}
		}
	}
	var out []byte
	var err error
	if !c.Call("RebuildPDFFromXFAStreams", func() { out, err = xfa.RebuildPDFFromXFAStreams(h.cur.data, s, enc, false) }) {
		return
	}
	if err != nil {
		if !c.randomFailed() {
			h.fail("refused", "%v", err)
		}
		return
	}
	h.changed(out, changes)
}

func genSettingsRun(r *Rng, sc *Scenario, i int) {
	genXFA(r, sc, i)
	seed := func() int64 { return int64(r.U64() >> 20) }
	var ops []Op
	for _, op := range sc.Ops {
		switch op.K {
		case "xfa":
			op.A[0] = 100 + op.A[0]
		case "read", "text":
			op = Op{K: "settings", A: []int64{seed()}}
		case "fill":
			op = Op{K: r.Pick("edit", "edit", "edit", "fill"), A: op.A}
		case "replace":
			op = Op{K: "edit", A: op.A}
		}
		ops = append(ops, op)
	}
	sc.Ops = append(ops, Op{K: "settings", A: []int64{seed()}})
}

func init() {
	register(&Prop{
		ID: "C15", Level: "exploration",
		Gen: genSettingsRun, Exec: execXFA,
		Quick: 6000, Thorough: 300000,
		Rule: "one evaluation is one simulated history of reading, translating and replacing the configuration, locales, style sheet and data connections of the XFA form of a generated document, compared after every step with a reference reading of its packets and with a model of the rest of the document; it counts as non-trivial when at least one step ran",
		Real: []string{"forms/xfa (the translators of config, localeSet, stylesheet and connectionSet)", "forms/xfa", "core/manipulate", "core/parse", "core/encrypt"},
		Stub: []string{"the writer of the input documents (independent)", "the disk that loses the tail of the last append", "the random source", "map iteration order"},
	})
}
