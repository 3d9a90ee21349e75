package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/benedoc-inc/pdfer/types"
)

// The packets of settings of XFA forms: configuration, locales, style sheets and data
// connections, as text in many spellings and as values, and a reader of their own.

var setNames = []string{"config", "localeSet", "connectionSet", "stylesheet"}

var setKeys = []string{"color", "timeout", "a.b", "x-1", "_p", "größe", "locale2", "packets", "Version", "methods", "day", "uri2", "name", "value", "field", "opt"}

// setAttrs are the attributes the elements have; n is a whole number, f a number, b true
// or false.
var setAttrs = map[string]string{
	"present": "renderPolicy effectiveOutputPolicy", "pdf": "version compression linearized:b encryption embedFonts:b tagged:b accessibility:b",
	"xdp": "version", "print": "printerName printerCap", "interactive": "currentPage:n zoom viewMode", "script": "contentType runAt",
	"validate": "scriptTest nullTest formatTest", "submit": "format target method embedPDF:b xdpContent textEncoding", "destination": "type target",
	"acrobat": "autoSave:b autoSaveTime:n formType version", "common": "dataPrefix timeStamp", "output": "format destination", "trace": "enabled:b level",
	"calendar": "symbols firstDay weekend", "currency": "symbol name precision:n", "datePattern": "format symbol", "timePattern": "format symbol",
	"numberPattern": "format symbol grouping decimal precision:n", "text": "direction encoding",
	"connection": "name type", "dataDescription": "ref schema namespace",
	"style": "name type", "font": "family size:f weight style color decoration", "border": "width:f style color radius:f",
	"margin": "top:f right:f bottom:f left:f", "padding": "top:f right:f bottom:f left:f", "position": "x:f y:f", "size": "width:f height:f",
}

// setElem spells an element with some of its attributes, in any order.
func setElem(r *Rng, pre, name string, more string, kids ...string) string {
	var as []string
	for _, f := range strings.Fields(setAttrs[name]) {
		if r.P(40) {
			continue
		}
		k, kind, _ := strings.Cut(f, ":")
		v := xfaValue(r)
		switch kind {
		case "n":
			v = r.Pick("1", "2", "30", "-5", "0", "007", "2147483647", "x12", "", "1.5")
		case "f":
			v = r.Pick("12", "-3.5", "0.25", "1e2", "0", "10pt", "72", "NaN", "Infinity", "0x1p4", "-0.001", "123456.75")
		case "b":
			v = r.Pick("1", "0", "true", "false")
		}
		as = append(as, attr(r, k, v))
	}
	if r.P(8) {
		as = append(as, attr(r, r.Pick("other", "xid", "desc2"), xfaValue(r)))
	}
	if more != "" {
		as = append(as, more)
	}
	var b strings.Builder
	for _, i := range r.Perm(len(as)) {
		b.WriteString(as[i])
	}
	if len(kids) == 0 && r.P(60) {
		return "<" + pre + name + b.String() + r.Pick("/>", " />")
	}
	s := "<" + pre + name + b.String() + ">"
	for _, k := range kids {
		s += r.ws() + k
	}
	return s + r.Pick("", "\n", " ") + "</" + pre + name + r.Pick("", " ") + ">"
}

// setProp spells an element of any name with a text.
func setProp(r *Rng, pre string, deep int, names ...string) string {
	k := setKeys[r.N(len(setKeys))]
	if len(names) > 0 && r.P(50) {
		k = names[r.N(len(names))]
	}
	if deep > 0 && r.P(15) {
		var kids []string
		for i := r.N(3); i >= 0; i-- {
			kids = append(kids, setProp(r, pre, deep-1, names...))
		}
		return setElem(r, pre, k, "", kids...)
	}
	v := xfaValue(r)
	s := pad(r, v)
	if r.P(5) && !strings.Contains(s, "<") {
		s += "<!-- here -->" + xmlText(r, r.Pick("more", " & more", "2"))
	}
	return "<" + pre + k + ">" + s + "</" + pre + k + ">"
}

func (r *Rng) shuffle(s []string) []string {
	var out []string
	for _, i := range r.Perm(len(s)) {
		out = append(out, s[i])
	}
	return out
}

// genSettings is a packet of settings.
func genSettings(r *Rng, name string) []byte {
	pre := r.Pick("", "", "", "c:")
	ns := ""
	if r.P(60) {
		k := "xmlns"
		if pre != "" {
			k = "xmlns:c"
		}
		ns = attr(r, k, "http://www.xfa.org/schema/xfa-"+name+"/3.0/")
	}
	var kids []string
	add := func(pct int, s string) {
		if r.P(pct) {
			kids = append(kids, s)
		}
	}
	switch name {
	case "config":
		props := func(pct int) (ps []string) {
			for r.P(pct) {
				ps = append(ps, setProp(r, pre, 2))
			}
			return
		}
		var in []string
		for _, n := range []string{"pdf", "xdp", "print", "interactive", "script"} {
			if r.P(55) {
				in = append(in, setElem(r, pre, n, ""))
			}
		}
		in = append(in, props(20)...)
		present := r.P(70)
		var deep []string // sections within another
		for _, n := range []string{"validate", "destination", "acrobat", "common", "output"} {
			ps := props(12)
			if len(deep) > 0 && r.P(30) {
				ps, deep = r.shuffle(append(ps, deep...)), nil
			}
			s := setElem(r, pre, n, "", ps...)
			switch {
			case r.P(55):
			case present && r.P(25):
				in = append(in, s)
			case r.P(15) && n != "output":
				deep = append(deep, s)
			default:
				kids = append(kids, s)
			}
		}
		if present {
			kids = append(kids, setElem(r, pre, "present", "", r.shuffle(in)...))
		}
		more := ""
		if r.P(40) {
			more = attr(r, "x-"+r.Pick("a", "b", "c"), xfaValue(r))
		}
		add(50, setElem(r, pre, "submit", more))
		add(30, setElem(r, pre, "script", ""))
		add(30, setElem(r, pre, "trace", ""))
		kids = append(kids, props(50)...)
		kids = r.shuffle(kids)
	case "localeSet":
		if r.P(60) {
			ns += attr(r, "default", r.Pick("en_US", "de_DE", "", "日本"))
		}
		for n := r.N(4); n > 0; n-- {
			at := ""
			if r.P(80) {
				at += attr(r, r.Pick("code", "id"), r.Pick("en_US", "fr_FR", "", "zh-Hant"))
			}
			if r.P(60) {
				at += attr(r, "name", xfaValue(r))
			}
			var in []string
			for _, k := range []string{"calendar", "currency", "datePattern", "timePattern", "numberPattern", "text"} {
				if !r.P(60) {
					continue
				}
				var days []string
				for k == "calendar" && r.P(50) {
					t := pad(r, r.Pick("01-01", "12-25", "Bank holiday", "holiday", "<Ostern>", "聖誕", "New  Year's Day", xfaValue(r), ""))
					days = append(days, "<"+pre+"holiday>"+t+"</"+pre+"holiday>")
				}
				in = append(in, setElem(r, pre, k, "", days...))
			}
			if r.P(15) {
				in = append(in, "<"+pre+"unheardOf>"+xmlText(r, xfaValue(r))+"</"+pre+"unheardOf>")
			}
			kids = append(kids, setElem(r, pre, "locale", at, r.shuffle(in)...))
		}
	case "connectionSet":
		props := []string{"uri", "url", "wsdl", "operation", "soapAction", "user", "password", "dsn", "query"}
		for n := r.N(4); n > 0; n-- {
			var in []string
			if r.P(60) {
				var of []string
				for r.P(40) {
					of = append(of, setProp(r, pre, 1, props...))
				}
				in = append(in, setElem(r, pre, "dataDescription", "", of...))
			}
			for r.P(65) {
				in = append(in, setProp(r, pre, 1, props...))
			}
			kids = append(kids, setElem(r, pre, "connection", "", r.shuffle(in)...))
		}
	case "stylesheet":
		for n := r.N(4); n > 0; n-- {
			var in []string
			for _, k := range []string{"font", "border", "margin", "padding", "position", "size"} {
				if r.P(45) {
					in = append(in, setElem(r, pre, k, ""))
				}
			}
			for r.P(50) {
				in = append(in, setProp(r, pre, 1))
			}
			kids = append(kids, setElem(r, pre, "style", "", r.shuffle(in)...))
		}
	}
	s := xmlHead(r) + setElem(r, pre, name, ns, kids...)
	if r.P(10) {
		s += "\nendstream\nendobj\n"
	}
	return []byte(s)
}

func xInt(s string) int {
	if n, err := strconv.Atoi(s); err == nil {
		return n
	}
	return 0
}

func xNum(s string) float64 {
	n, _ := xfaNumber(s)
	return n
}

// xfaNumber is the number a text is, if it is one.
func xfaNumber(s string) (float64, bool) {
	n, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(n) || math.IsInf(n, 0) {
		return 0, false
	}
	return n, true
}

func (e *xel) get(k string) string { s, _ := e.attr(k); return s }
func (e *xel) yes(k string) bool   { s := e.get(k); return s == "1" || s == "true" }
func (e *xel) sub() (out []*xel) {
	for _, k := range e.kids {
		if x, ok := k.(*xel); ok {
			out = append(out, x)
		}
	}
	return
}

// all elements below, in their order.
func (e *xel) all() (out []*xel) {
	for _, x := range e.sub() {
		out = append(append(out, x), x.all()...)
	}
	return
}

// prop is the text of an element that has no others in it.
func (e *xel) prop() string {
	if len(e.sub()) > 0 {
		return ""
	}
	return strings.TrimSpace(e.text())
}

// refSettings is what a packet of settings says.
func refSettings(name string, data []byte) (interface{}, error) {
	top, err := readXML(data)
	if err != nil {
		return nil, err
	}
	root := &xel{}
	for _, x := range top.sub() {
		if x.name == name {
			root = x
		}
	}
	switch name {
	case "config":
		c := &types.XFAConfig{Properties: map[string]interface{}{}}
		script := func(x *xel) *types.XFAConfigScript {
			return &types.XFAConfigScript{ContentType: x.get("contentType"), RunAt: x.get("runAt")}
		}
		var read func(e *xel, in string)
		read = func(e *xel, in string) {
			for _, x := range e.sub() {
				section := x.name
				switch x.name {
				case "present":
					c.Present = &types.XFAConfigPresent{RenderPolicy: x.get("renderPolicy"), EffectiveOutputPolicy: x.get("effectiveOutputPolicy")}
				case "pdf":
					c.Present.PDF = &types.XFAConfigPDF{Version: x.get("version"), Compression: x.get("compression"), Linearized: x.yes("linearized"), Encryption: x.get("encryption"),
						EmbedFonts: x.yes("embedFonts"), Tagged: x.yes("tagged"), Accessibility: x.yes("accessibility")}
				case "xdp":
					c.Present.XDP = &types.XFAConfigXDP{Version: x.get("version")}
				case "print":
					c.Present.Print = &types.XFAConfigPrint{PrinterName: x.get("printerName"), PrinterCap: x.get("printerCap")}
				case "interactive":
					c.Present.Interactive = &types.XFAConfigInteractive{CurrentPage: xInt(x.get("currentPage")), Zoom: x.get("zoom"), ViewMode: x.get("viewMode")}
				case "script":
					if in == "present" {
						c.Present.Script = script(x)
					} else {
						c.Script = script(x)
					}
				case "validate":
					c.Validate = &types.XFAConfigValidate{ScriptTest: x.get("scriptTest"), NullTest: x.get("nullTest"), FormatTest: x.get("formatTest")}
				case "submit":
					c.Submit = &types.XFAConfigSubmit{Format: x.get("format"), Target: x.get("target"), Method: x.get("method"), EmbedPDF: x.yes("embedPDF"),
						XDPContent: x.get("xdpContent"), TextEncoding: x.get("textEncoding"), Properties: map[string]string{}}
					for i := 0; i < len(x.attrs); i += 2 {
						if k := x.attrs[i]; !strings.Contains(" format target method embedPDF xdpContent textEncoding ", " "+k+" ") {
							c.Submit.Properties[k] = x.attrs[i+1]
						}
					}
				case "destination":
					c.Destination = &types.XFAConfigDestination{Type: x.get("type"), Target: x.get("target")}
				case "acrobat":
					c.Acrobat = &types.XFAConfigAcrobat{AutoSave: x.yes("autoSave"), AutoSaveTime: xInt(x.get("autoSaveTime")), FormType: x.get("formType"), Version: x.get("version")}
				case "common":
					c.Common = &types.XFAConfigCommon{DataPrefix: x.get("dataPrefix"), TimeStamp: x.get("timeStamp")}
				case "output":
					c.Output = &types.XFAConfigOutput{Format: x.get("format"), Destination: x.get("destination")}
				case "trace":
					c.Trace = &types.XFAConfigTrace{Enabled: x.yes("enabled"), Level: x.get("level")}
				default:
					section = in
					if v := x.prop(); v != "" {
						c.Properties[x.name] = v
					}
				}
				read(x, section)
			}
		}
		read(root, "")
		return c, nil
	case "localeSet":
		s := &types.XFALocaleSet{Locales: []types.XFALocale{}, Default: root.get("default")}
		for _, e := range root.sub() {
			l := types.XFALocale{Name: e.get("name"), Code: e.get("code") + e.get("id")}
			for _, x := range e.sub() {
				switch x.name {
				case "calendar":
					l.Calendar = &types.XFACalendar{Symbols: x.get("symbols"), FirstDay: x.get("firstDay"), Weekend: x.get("weekend")}
					for _, d := range x.sub() {
						if t := d.prop(); t != "" {
							l.Calendar.Holidays = append(l.Calendar.Holidays, t)
						}
					}
				case "currency":
					l.Currency = &types.XFACurrency{Symbol: x.get("symbol"), Name: x.get("name"), Precision: xInt(x.get("precision"))}
				case "datePattern":
					l.DatePattern = &types.XFADatePattern{Format: x.get("format"), Symbol: x.get("symbol")}
				case "timePattern":
					l.TimePattern = &types.XFATimePattern{Format: x.get("format"), Symbol: x.get("symbol")}
				case "numberPattern":
					l.NumberPattern = &types.XFANumberPattern{Format: x.get("format"), Symbol: x.get("symbol"), Grouping: x.get("grouping"), Decimal: x.get("decimal"), Precision: xInt(x.get("precision"))}
				case "text":
					l.Text = &types.XFAText{Direction: x.get("direction"), Encoding: x.get("encoding")}
				}
			}
			s.Locales = append(s.Locales, l)
		}
		return s, nil
	case "connectionSet":
		s := &types.XFAConnectionSet{Connections: []types.XFAConnection{}}
		for _, e := range root.sub() {
			c := types.XFAConnection{Name: e.get("name"), Type: e.get("type"), Properties: map[string]interface{}{}}
			for _, k := range e.sub() {
				to, url := c.Properties, "uri"
				if k.name == "dataDescription" {
					c.DataDescription = &types.XFADataDescription{Ref: k.get("ref"), Schema: k.get("schema"), Namespace: k.get("namespace"), Properties: map[string]interface{}{}}
					to, url = c.DataDescription.Properties, "url"
				}
				for _, x := range append([]*xel{k}, k.all()...) {
					n := x.name
					if n == "url" {
						n = url
					}
					if v := x.prop(); v != "" && n != "dataDescription" {
						to[n] = v
					}
				}
			}
			s.Connections = append(s.Connections, c)
		}
		return s, nil
	case "stylesheet":
		s := &types.XFAStylesheet{Styles: []types.XFAStyle{}}
		for _, e := range root.sub() {
			st := types.XFAStyle{Name: e.get("name"), Type: e.get("type"), Properties: map[string]interface{}{}}
			for _, x := range e.all() {
				var v interface{}
				switch x.name {
				case "font":
					v = &types.XFAStyleFont{Family: x.get("family"), Size: xNum(x.get("size")), Weight: x.get("weight"), Style: x.get("style"), Color: x.get("color"), Decoration: x.get("decoration")}
				case "border":
					v = &types.XFAStyleBorder{Width: xNum(x.get("width")), Style: x.get("style"), Color: x.get("color"), Radius: xNum(x.get("radius"))}
				case "margin":
					v = &types.XFAMargin{Top: xNum(x.get("top")), Right: xNum(x.get("right")), Bottom: xNum(x.get("bottom")), Left: xNum(x.get("left"))}
				case "padding":
					v = &types.XFAPadding{Top: xNum(x.get("top")), Right: xNum(x.get("right")), Bottom: xNum(x.get("bottom")), Left: xNum(x.get("left"))}
				case "position":
					v = &types.XFAPosition{X: xNum(x.get("x")), Y: xNum(x.get("y"))}
				case "size":
					v = &types.XFASize{Width: xNum(x.get("width")), Height: xNum(x.get("height"))}
				default:
					t := x.prop()
					if t == "" {
						continue
					}
					v = styleValue(t)
				}
				st.Properties[x.name] = v
			}
			s.Styles = append(s.Styles, st)
		}
		return s, nil
	}
	return nil, fmt.Errorf("no reader for %s", name)
}

func styleValue(t string) interface{} {
	if f, ok := xfaNumber(t); ok {
		return f
	}
	if t == "true" || t == "false" {
		return t == "true"
	}
	return t
}

// showSettings is the canonical text of settings.
func showSettings(v interface{}) string {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err.Error()
	}
	return string(b)
}
