package main

import "reflect"

// initTypes computes the features of all types.
func initTypes() {
	for _, t := range allTypes {
		t.Feat = features(t.R, map[reflect.Type]int{})
		if t.Feat&FRecur != 0 {
			t.Recur = true
		}
	}
}

// features returns the features of everything that's decoded into in t. State
// of seen: 1 = on the path, 2 = done.
func features(t reflect.Type, seen map[reflect.Type]int) (f Feat) {
	if t.Kind() == reflect.Pointer {
		return FPtr | features(t.Elem(), seen)
	}
	if isJSONUnm(t) {
		f |= FJSONUnm
		if t.Size() == 0 {
			f |= FZeroSize
		}
		return f
	}
	if isTextUnm(t) {
		f |= FTextUnm
		if t.Size() == 0 {
			f |= FZeroSize
		}
		return f
	}
	if t.Name() != "" {
		switch seen[t] {
		case 1:
			return FRecur
		case 2:
			return 0
		}
		if t.Kind() == reflect.Struct {
			seen[t] = 1
			defer func() { seen[t] = 2 }()
		}
	}
	if t.Size() == 0 {
		f |= FZeroSize
	}
	switch t.Kind() {
	case reflect.Bool:
		f |= FBool
	case reflect.String:
		if isNumberType(t) {
			f |= FNumber
		} else {
			f |= FString
		}
	case reflect.Float32, reflect.Float64:
		f |= FFloat
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		f |= FInt
	case reflect.Interface:
		f |= FAny
	case reflect.Slice:
		f |= FSlice
		if t.Elem().Kind() == reflect.Uint8 {
			f |= FBytes
		}
		f |= features(t.Elem(), seen)
	case reflect.Array:
		f |= FArray
		f |= features(t.Elem(), seen)
	case reflect.Map:
		f |= FMap
		switch k := t.Key(); {
		case reflect.PointerTo(k).Implements(tpTU):
			f |= FKeyText
		case k.Kind() == reflect.String:
			f |= FKeyStr
		default:
			f |= FKeyInt
		}
		f |= features(t.Elem(), seen)
	case reflect.Struct:
		f |= FStruct
		if t.NumField() == 0 {
			f |= FEmptyStruct
		}
		for _, x := range structFields(t) {
			if x.quoted {
				f |= FStringTag
			}
			f |= features(x.typ, seen)
		}
	}
	return f
}

// typesWith returns the types that have any of the given features.
func typesWith(any Feat, pred func(t *Type) bool) []*Type {
	var l []*Type
	for _, t := range allTypes {
		if (any == 0 || t.Feat&any != 0) && (pred == nil || pred(t)) {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		panic("no types selected")
	}
	return l
}
