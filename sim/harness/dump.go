package main

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"
)

var xmlNameType = reflect.TypeOf(xml.Name{})

// dump writes every exported field that carries a value, one per line, with
// its path. Element names and unexported links are left out: they are not
// content.
func dump(sb *strings.Builder, v any) { dumpV(sb, "", reflect.ValueOf(v), 0) }

func dumpString(v any) string {
	var sb strings.Builder
	dump(&sb, v)
	return sb.String()
}

func dumpV(sb *strings.Builder, path string, v reflect.Value, depth int) {
	if depth > 60 {
		fmt.Fprintf(sb, "%s = (too deep)\n", path)
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		return
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		dumpV(sb, path, v.Elem(), depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		fmt.Fprintf(sb, "%s *%s\n", path, v.Type().Elem().Name())
		dumpV(sb, path, v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Type == xmlNameType {
				continue
			}
			dumpV(sb, path+"."+f.Name, v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		n := 0
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if (e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface) && e.IsNil() {
				continue
			}
			dumpV(sb, fmt.Sprintf("%s[%d]", path, n), e, depth+1)
			n++
		}
	case reflect.String:
		if v.Len() > 0 {
			fmt.Fprintf(sb, "%s = %q\n", path, v.String())
		}
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64:
		if !v.IsZero() {
			fmt.Fprintf(sb, "%s = %v\n", path, v.Interface())
		}
	default:
		fmt.Fprintf(sb, "%s = (%s)\n", path, v.Kind())
	}
}
