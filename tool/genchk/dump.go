package genchk

import (
	"fmt"

	"polyverif/gensa"
)

// Universe is a file with one message per interesting combination of shapes.
func Universe() *gensa.PFile {
	f := gensa.NewFile("dir/uni.proto", "pkg.uni")
	universe(f)
	return f
}

func universe(f *gensa.PFile) {
	e := f.AddEnum("Color", "RED", "GREEN", "BLUE")
	leaf := f.AddMsg("Leaf")
	leaf.AddField("num", gensa.KInt32, gensa.Optional, nil)
	all := f.AddMsg("All")
	inner := all.AddMsg("Inner")
	inner.AddField("name", gensa.KString, gensa.Optional, nil)
	ie := all.AddEnum("Mode", "ON", "OFF")
	for _, k := range ScalarKinds {
		all.AddField("s_"+gensa.KindName[k], k, gensa.Optional, nil)
	}
	all.AddField("s_enum", gensa.KEnum, gensa.Optional, e)
	all.AddField("s_mode", gensa.KEnum, gensa.Optional, ie)
	all.AddField("s_leaf", gensa.KMessage, gensa.Optional, leaf)
	all.AddField("s_inner", gensa.KMessage, gensa.Optional, inner)
	for _, k := range ScalarKinds {
		all.AddField("r_"+gensa.KindName[k], k, gensa.Repeated, nil)
	}
	all.AddField("r_enum", gensa.KEnum, gensa.Repeated, e)
	all.AddField("r_leaf", gensa.KMessage, gensa.Repeated, leaf)
	for _, k := range MapKeyKinds {
		all.AddMap("mk_"+gensa.KindName[k], k, gensa.KString, nil)
	}
	for _, k := range ScalarKinds {
		all.AddMap("mv_"+gensa.KindName[k], gensa.KUint32, k, nil)
	}
	all.AddMap("mv_enum", gensa.KString, gensa.KEnum, e)
	all.AddMap("mv_leaf", gensa.KString, gensa.KMessage, leaf)
}

var ScalarKinds = []int{gensa.KBool, gensa.KInt32, gensa.KSint32, gensa.KUint32, gensa.KInt64, gensa.KSint64, gensa.KUint64, gensa.KSfixed32,
	gensa.KFixed32, gensa.KFloat, gensa.KSfixed64, gensa.KFixed64, gensa.KDouble, gensa.KString, gensa.KBytes}
var MapKeyKinds = []int{gensa.KBool, gensa.KInt32, gensa.KSint32, gensa.KUint32, gensa.KInt64, gensa.KSint64, gensa.KUint64, gensa.KSfixed32,
	gensa.KFixed32, gensa.KSfixed64, gensa.KFixed64, gensa.KString}

// Dump prints what a generator emits for the universe.
func Dump(repo, mod, lang string) {
	w, err := Load(repo, mod)
	if err != nil {
		fmt.Println(err)
		return
	}
	o := w.Generate(lang, &gensa.Request{Files: []*gensa.PFile{Universe()}}, 0)
	fmt.Println(o.Problem())
	for _, n := range o.Order {
		fmt.Printf("=== %s\n%s\n", n, o.Files[n])
	}
}
