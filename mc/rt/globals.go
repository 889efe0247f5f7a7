package rt

import "reflect"

type global struct {
	v    reflect.Value
	init reflect.Value
}

var globals []global

func copied(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	if v.Kind() == reflect.Map && !v.IsNil() {
		c.Set(reflect.MakeMapWithSize(v.Type(), v.Len()))
		for it := v.MapRange(); it.Next(); {
			c.SetMapIndex(it.Key(), it.Value())
		}
		return c
	}
	c.Set(v)
	return c
}

// Globals registers package variables (by address) of the code under test: each execution starts with the values they have
// now, as a fresh process would.
func Globals(ps ...any) {
	for _, p := range ps {
		v := reflect.ValueOf(p).Elem()
		globals = append(globals, global{v, copied(v)})
	}
}

func resetGlobals() {
	for _, g := range globals {
		g.v.Set(copied(g.init))
	}
}
