#!/usr/bin/env python3
"""Behaviour-preserving refactorings on which every check must stay quiet.

refactors.py [-k NAME] [-c C01,C02] [-t]   (-t: also run the package's tests)

Each one is applied to a scratch copy of /repo; the analyzer (built as by
check.sh) runs on the copy. Development aid: no registered check uses it.
"""
import sys, os, re, subprocess, shutil, json, argparse, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = '*'  # replace all occurrences
R = {}

def r(name, *edits):
    R[name] = edits

D, E, M, T = 'decode.go', 'encode.go', 'merge.go', 'tagscache.go'

PADLOOP = '''	tag := by[idx]
	for tag == typePAD || tag == typePAD|trackFlag {
		idx++
		if idx >= len(by) {
			return %s
		}

		tag = by[idx]
	}
'''
SKIP = '''
func skipPadding(by []byte, idx int) (byte, int, error) {
	for ; idx < len(by); idx++ {
		if by[idx]&^trackFlag != typePAD {
			return by[idx], idx, nil
		}
	}
	return 0, 0, ErrTruncated
}
'''
r('skip-padding',
  (D, '''	tag := by[idx]

	// skip over any padding bytes
	for tag == typePAD || tag == typePAD|trackFlag {
		idx++
		if idx >= len(by) {
			return 0, ErrTruncated
		}

		tag = by[idx]
	}
''', '''	tag, idx, perr := skipPadding(by, idx)
	if perr != nil {
		return 0, perr
	}
'''),
  (D, PADLOOP % 'nil, 0, ErrTruncated', '''	tag, idx, err := skipPadding(by, idx)
	if err != nil {
		return nil, 0, err
	}
'''),
  (D, PADLOOP % '0, ErrTruncated', '''	tag, idx, perr := skipPadding(by, idx)
	if perr != nil {
		return 0, perr
	}
'''),
  (D, '\nfunc (d *Decoder) decodeInt', SKIP + '\nfunc (d *Decoder) decodeInt'))

OFFS = '''		var offs, sz int
		offs, sz, err = varintdecode(by[idx:])
		if err != nil {
			return 0, err
		}
		if offs < d.firstOffs || offs >= idx {
			return 0, ErrCorrupt{errBadOffset}
		}
		idx += sz
'''
r('read-offset',
  (D, OFFS, '''		var offs int
		offs, idx, err = d.readOffset(by, idx)
		if err != nil {
			return 0, err
		}
''', ALL),
  (D, '''		offs, sz, err := varintdecode(by[idx:])
		if err != nil {
			return nil, 0, err
		}
		if offs < d.firstOffs || offs >= idx {
			return nil, 0, ErrCorrupt{errBadOffset}
		}
		idx += sz
''', '''		offs, next, err := d.readOffset(by, idx)
		if err != nil {
			return nil, 0, err
		}
		idx = next
'''),
  (D, '\nfunc (d *Decoder) decodeInt', '''
// readOffset reads the position of an earlier item
func (d *Decoder) readOffset(by []byte, idx int) (int, int, error) {
	offs, sz, err := varintdecode(by[idx:])
	switch {
	case err != nil:
		return 0, 0, err
	case offs < d.firstOffs, offs >= idx:
		return 0, 0, ErrCorrupt{errBadOffset}
	}
	return offs, idx + sz, nil
}

func (d *Decoder) decodeInt'''))

r('read-length',
  (D, '''		var ln, sz int
		ln, sz, err = varintdecode(by[idx:])
		if err != nil {
			return 0, err
		}
		idx, err = d.decodeHash(by, idx+sz, ln, ptr, false)''', '''		var ln int
		if ln, idx, err = d.decodeVarint(by, idx); err != nil {
			return 0, err
		}
		idx, err = d.decodeHash(by, idx, ln, ptr, false)'''),
  (D, '''		var ln, sz int
		ln, sz, err = varintdecode(by[idx:])
		if err != nil {
			return 0, err
		}
		idx, err = d.decodeArray(by, idx+sz, ln, ptr, false)''', '''		var ln int
		if ln, idx, err = d.decodeVarint(by, idx); err != nil {
			return 0, err
		}
		idx, err = d.decodeArray(by, idx, ln, ptr, false)'''),
  (D, '''		var val []byte
		var ln, sz int
		ln, sz, err = varintdecode(by[idx:])
		if err != nil {
			return 0, err
		}
		if val, idx, err = d.decodeBinary(by, idx+sz, ln, false); err != nil {
			return 0, err
		}
''', '''		val, next, serr := d.decodeLongString(by, idx)
		if serr != nil {
			return 0, serr
		}
		idx = next
''', ALL),
  (D, '\nfunc (d *Decoder) decodeInt', '''
func (d *Decoder) decodeLongString(by []byte, idx int) ([]byte, int, error) {
	ln, sz, err := varintdecode(by[idx:])
	if err != nil {
		return nil, 0, err
	}
	return d.decodeBinary(by, idx+sz, ln, false)
}

func (d *Decoder) decodeInt'''))

r('hash-loop',
  (D, '''	for i := 0; i < ln; i++ {
		var key []byte
		key, idx, err = d.decodeStringish(by, idx)
		if err != nil {
			return 0, err
		}

		var value interface{}
''', '''	for ; ln > 0; ln-- {
		var key []byte
		key, idx, err = d.decodeStringish(by, idx)
		if err != nil {
			return 0, err
		}

		var value interface{}
'''))
r('array-range',
  (D, '''	for i := 0; i < ln; i++ {
		idx, err = d.decode(by, idx, &slice[i])
''', '''	for i := range slice {
		idx, err = d.decode(by, idx, &slice[i])
'''))
r('array-ptr',
  (D, '''	for i := 0; i < ln; i++ {
		idx, err = d.decode(by, idx, &slice[i])
''', '''	for i := 0; i < len(slice); i++ {
		elem := &slice[i]
		idx, err = d.decode(by, idx, elem)
'''))
r('array-via-two-loops',
  (D, '''	for i := 0; i < ln; i++ {
		if i < ptrLen {
			idx, err = d.decodeViaReflection(by, idx, ptr.Index(i))
		} else {
			// we went outside of array length, so ignore folowwing content
			var iface interface{}
			idx, err = d.decode(by, idx, &iface) // TODO make this process to be efficient
		}

		if err != nil {
			return 0, err
		}
	}
''', '''	i := 0
	for ; i < ln && i < ptrLen; i++ {
		if idx, err = d.decodeViaReflection(by, idx, ptr.Index(i)); err != nil {
			return 0, err
		}
	}

	// ignore what does not fit
	for ; i < ln; i++ {
		var iface interface{}
		if idx, err = d.decode(by, idx, &iface); err != nil {
			return 0, err
		}
	}
'''))
r('varint-index',
  (D, '''	s := uint(0) // shift count
	for i, b := range by {
		n |= int(b&0x7f) << s
		s += 7

		if (b & 0x80) == 0 {
			return n, i + 1, nil
		}

		if s > 63 {
			// too many continuation bits
			return 0, i + 1, ErrCorrupt{errBadVarint}
		}
	}
''', '''	for i := 0; i < len(by); i++ {
		b := by[i]
		n |= int(b&0x7f) << (7 * uint(i))

		if b < 0x80 {
			return n, i + 1, nil
		}

		if i >= 9 {
			// too many continuation bits
			return 0, i + 1, ErrCorrupt{errBadVarint}
		}
	}
'''))
r('varint-while',
  (D, '''	s := uint(0) // shift count
	for i, b := range by {
		n |= int(b&0x7f) << s
		s += 7

		if (b & 0x80) == 0 {
			return n, i + 1, nil
		}

		if s > 63 {
			// too many continuation bits
			return 0, i + 1, ErrCorrupt{errBadVarint}
		}
	}
''', '''	var u uint64
	for sz < len(by) {
		b := by[sz]
		u |= uint64(b&0x7f) << uint(7*sz)
		sz++

		if b&0x80 == 0 {
			return int(u), sz, nil
		}

		if sz == 10 {
			// too many continuation bits
			return 0, sz, ErrCorrupt{errBadVarint}
		}
	}
'''))
r('float-binary',
  (D, '''	bits := uint32(by[idx]) | uint32(by[idx+1])<<8 | uint32(by[idx+2])<<16 | uint32(by[idx+3])<<24
''', '''	bits := binary.LittleEndian.Uint32(by[idx : idx+4])
'''),
  (D, '''	bits := uint64(by[idx]) | uint64(by[idx+1])<<8 | uint64(by[idx+2])<<16 | uint64(by[idx+3])<<24 | uint64(by[idx+4])<<32 | uint64(by[idx+5])<<40 | uint64(by[idx+6])<<48 | uint64(by[idx+7])<<56
''', '''	bits := binary.LittleEndian.Uint64(by[idx:])
'''),
  (D, 'if idx+3 >= len(by) {', 'if len(by)-idx < 4 {'),
  (D, 'if idx+7 >= len(by) {', 'if len(by) < idx+8 {'))
r('double-loop',
  (D, '''	bits := uint64(by[idx]) | uint64(by[idx+1])<<8 | uint64(by[idx+2])<<16 | uint64(by[idx+3])<<24 | uint64(by[idx+4])<<32 | uint64(by[idx+5])<<40 | uint64(by[idx+6])<<48 | uint64(by[idx+7])<<56
''', '''	var bits uint64
	for i := 7; i >= 0; i-- {
		bits = bits<<8 | uint64(by[idx+i])
	}
'''))
r('double-loop-up',
  (D, '''	bits := uint64(by[idx]) | uint64(by[idx+1])<<8 | uint64(by[idx+2])<<16 | uint64(by[idx+3])<<24 | uint64(by[idx+4])<<32 | uint64(by[idx+5])<<40 | uint64(by[idx+6])<<48 | uint64(by[idx+7])<<56
''', '''	var bits uint64
	for i := uint(0); i < 8; i++ {
		bits |= uint64(by[idx+int(i)]) << (8 * i)
	}
'''))
r('binary-append',
  (D, '''		res := make([]byte, ln)
		copy(res, by[idx:idx+ln])
		return res, idx + ln, nil
	}

	return by[idx : idx+ln], idx + ln, nil
''', '''		return append(make([]byte, 0, ln), by[idx:idx+ln]...), idx + ln, nil
	}

	end := idx + ln
	return by[idx:end], end, nil
'''))
r('negated-conditions',
  (D, 'if offs < d.firstOffs || offs >= idx {', 'if !(offs >= d.firstOffs && offs < idx) {', ALL),
  (D, 'if d.copyDepth > 0 {', 'if !(d.copyDepth <= 0) {', ALL),
  (D, 'if ln < 0 || ln > math.MaxInt32 {', 'if ln > math.MaxInt32 || ln < 0 {', ALL))
r('decode-int',
  (D, '''	if (tag & 0x10) == 0x10 {
		return int(tag) - 32 // negative number
	}
	return int(tag)
''', '''	if tag >= 16 {
		return int(tag) - 32 // negative number
	}
	return int(tag)
'''))
r('decode-int-shift',
  (D, '''	if (tag & 0x10) == 0x10 {
		return int(tag) - 32 // negative number
	}
	return int(tag)
''', '''	n := int(tag & 0x0f)
	if tag&0x10 != 0 {
		n -= 16
	}
	return n
'''))
r('zigzag-branch',
  (D, '''	i, sz, err := varintdecode(by[idx:])
	return int(uint64(i)>>1) ^ -(i & 1), idx + sz, err
''', '''	i, sz, err := varintdecode(by[idx:])
	n := int(uint(i) >> 1)
	if i&1 == 1 {
		n = ^n
	}
	return n, idx + sz, err
'''))
r('zigzag-neg',
  (D, '''	i, sz, err := varintdecode(by[idx:])
	return int(uint64(i)>>1) ^ -(i & 1), idx + sz, err
''', '''	u, sz, err := varintdecode(by[idx:])
	if err != nil {
		return 0, 0, err
	}
	half := int(uint64(u) >> 1)
	if u&1 != 0 {
		return -half - 1, idx + sz, nil
	}
	return half, idx + sz, nil
'''))
r('top-helper',
  (D, '''		if header.version == 1 {
			d.firstOffs = bodyStart
			if ptr, ok := vbody.(*interface{}); ok && *ptr == nil {
				_, err = d.decode(b, bodyStart, ptr)
			} else {
				_, err = d.decodeViaReflection(b, bodyStart, bodyValue.Elem())
			}
		} else {
			// serealv2 documents have 1-based offsets :/
			d.firstOffs = 1
			if ptr, ok := vbody.(*interface{}); ok && *ptr == nil {
				_, err = d.decode(b[bodyStart-1:], 1, ptr)
			} else {
				_, err = d.decodeViaReflection(b[bodyStart-1:], 1, bodyValue.Elem())
			}
		}
''', '''		if header.version == 1 {
			err = d.decodeTop(b, bodyStart, vbody, bodyValue)
		} else {
			// serealv2 documents have 1-based offsets :/
			err = d.decodeTop(b[bodyStart-1:], 1, vbody, bodyValue)
		}
'''),
  (D, '''			d.firstOffs = 1
			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
				// offsets in user header are relative to its flags byte
				_, err = d.decode(b[header.suffixStart:bodyStart], 1, ptr)
			} else {
				_, err = d.decodeViaReflection(b[header.suffixStart:bodyStart], 1, headerValue.Elem())
			}
''', '''			// offsets in user header are relative to its flags byte
			err = d.decodeTop(b[header.suffixStart:bodyStart], 1, vheader, headerValue)
'''),
  (D, '\nfunc (d *Decoder) decodeInt', '''
// decodeTop decodes the item at by[first] into what v points to
func (d *Decoder) decodeTop(by []byte, first int, v interface{}, rv reflect.Value) error {
	d.firstOffs = first
	if ptr, ok := v.(*interface{}); ok && *ptr == nil {
		_, err := d.decode(by, first, ptr)
		return err
	}
	_, err := d.decodeViaReflection(by, first, rv.Elem())
	return err
}

func (d *Decoder) decodeInt'''))
r('inflate-helper',
  (D, '''		if decomp != nil {
			decompBody, err := decomp.decompress(nil, b[bodyStart:])
			if err != nil {
				return err
			}

			newBody := make([]byte, 0, len(b[:bodyStart])+len(decompBody))
			newBody = append(newBody, b[:bodyStart]...)
			newBody = append(newBody, decompBody...)
			b = newBody
		}
''', '''		if b, err = inflate(decomp, b, bodyStart); err != nil {
			return err
		}
'''),
  (D, '\nfunc (d *Decoder) decodeInt', '''
// inflate returns the document with its body decompressed
func inflate(decomp decompressor, b []byte, bodyStart int) ([]byte, error) {
	if decomp == nil {
		return b, nil
	}
	body, err := decomp.decompress(nil, b[bodyStart:])
	if err != nil {
		return nil, err
	}
	doc := make([]byte, 0, bodyStart+len(body))
	doc = append(doc, b[:bodyStart]...)
	return append(doc, body...), nil
}

func (d *Decoder) decodeInt'''))
r('recover-helper',
  (D, '''			if _, ok := r.(runtime.Error); ok {
				panic(r)
			}

			switch t := r.(type) {
			case string:
				err = errors.New(t)
			case error:
				err = t
			default:
				err = fmt.Errorf("sereal: panic while decoding: %v", r)
			}
''', '''			err = panicError(r, "decoding")
'''),
  (E, '''			if _, ok := r.(runtime.Error); ok {
				panic(r)
			}

			switch t := r.(type) {
			case string:
				err = errors.New(t)
			case error:
				err = t
			default:
				err = fmt.Errorf("sereal: panic while encoding: %v", r)
			}
''', '''			err = panicError(r, "encoding")
'''),
  (E, '	"runtime"\n', ''),
  (D, '\nfunc (d *Decoder) decodeInt', '''
// panicError turns a recovered panic into an error
func panicError(r interface{}, what string) error {
	switch t := r.(type) {
	case runtime.Error:
		panic(r)
	case string:
		return errors.New(t)
	case error:
		return t
	}
	return fmt.Errorf("sereal: panic while %s: %v", what, r)
}

func (d *Decoder) decodeInt'''))
r('check-header-if',
  (D, '''	switch header.version {
	case 1:
		break
	case 2:
		break
	case 3:
		break
	case 4:
		break
	default:
		return header, fmt.Errorf("document version '%d' not yet supported", header.version)
	}
''', '''	if header.version < 1 || header.version > 4 {
		return header, fmt.Errorf("document version '%d' not yet supported", header.version)
	}
'''))
r('read-header',
  (D, '''	validHeader := false

	switch first4Bytes {
	case magicHeaderBytes:
		if 1 <= h.version && h.version <= 2 {
			validHeader = true
		}
	case magicHeaderBytesHighBit:
		if h.version >= 3 {
			validHeader = true
		}
	case magicHeaderBytesHighBitUTF8:
		return serealHeader{}, ErrBadHeaderUTF8
	}

	if !validHeader {
		return serealHeader{}, ErrBadHeader
	}
''', '''	if first4Bytes == magicHeaderBytesHighBitUTF8 {
		return serealHeader{}, ErrBadHeaderUTF8
	}

	old := first4Bytes == magicHeaderBytes && (h.version == 1 || h.version == 2)
	high := first4Bytes == magicHeaderBytesHighBit && h.version > 2
	if !old && !high {
		return serealHeader{}, ErrBadHeader
	}
'''))
r('decompressor-if',
  (D, '''	switch doctype {
	case serealRaw:
		// nothing

	case serealSnappy:
''', '''	if doctype == serealRaw {
		return nil, nil
	}

	switch doctype {
	case serealSnappy:
'''))
r('decompressor-returns',
  (D, '''		decomp = SnappyCompressor{Incremental: false}
''', '''		return SnappyCompressor{}, nil
'''),
  (D, '''		decomp = SnappyCompressor{Incremental: true}
''', '''		return SnappyCompressor{Incremental: true}, nil
'''),
  (D, '''		if version < 3 {
			return nil, ErrBadZlibV3
		}
		decomp = ZlibCompressor{}
''', '''		if version >= 3 {
			return ZlibCompressor{}, nil
		}
		return nil, ErrBadZlibV3
'''))
r('set-int',
  (D, '''	switch ptr.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		ptr.SetInt(int64(i))

	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		ptr.SetUint(uint64(i))

	default:
		panic(&reflect.ValueError{Method: "sereal.setInt", Kind: ptr.Kind()})
	}
''', '''	kind := ptr.Kind()
	switch kind {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		ptr.SetUint(uint64(i))
		return

	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		ptr.SetInt(int64(i))
		return
	}
	panic(&reflect.ValueError{Method: "sereal.setInt", Kind: kind})
'''))
r('map-helper',
  (D, '''			keyValue := reflect.ValueOf(string(key))
			if value := ptr.MapIndex(keyValue); value.IsValid() {
				// strkey exists in map, replace its content but respect structure
				idx, err = d.decodeViaReflection(by, idx, value)
			} else {
				// there is no strkey in map, crete a new one
				riface := reflect.New(ptr.Type().Elem())
				idx, err = d.decodeViaReflection(by, idx, riface.Elem())
				if err != nil {
					return 0, err
				}

				ptr.SetMapIndex(keyValue, riface.Elem())
			}

			if err != nil {
				return 0, err
			}
''', '''			if idx, err = d.decodeMapEntry(by, idx, ptr, string(key)); err != nil {
				return 0, err
			}
'''),
  (D, '\nfunc (d *Decoder) decodeREFP_ALIAS', '''
func (d *Decoder) decodeMapEntry(by []byte, idx int, m reflect.Value, key string) (int, error) {
	keyValue := reflect.ValueOf(key)
	if value := m.MapIndex(keyValue); value.IsValid() {
		// strkey exists in map, replace its content but respect structure
		return d.decodeViaReflection(by, idx, value)
	}

	// there is no strkey in map, crete a new one
	elem := reflect.New(m.Type().Elem()).Elem()
	idx, err := d.decodeViaReflection(by, idx, elem)
	if err != nil {
		return 0, err
	}

	m.SetMapIndex(keyValue, elem)
	return idx, nil
}

func (d *Decoder) decodeREFP_ALIAS'''))
r('struct-helper',
  (D, '''			var fld int
			var found bool

			if tags == nil {
				// do nothing
			} else if fld, found = tags[string(key)]; found {
				idx, err = d.decodeViaReflection(by, idx, ptr.Field(fld))
			} else if fld, found = tags[strings.Title(string(key))]; found {
				idx, err = d.decodeViaReflection(by, idx, ptr.Field(fld))
			}

			if !found {
				// struct doesn't contain field with strkey name
				var iface interface{}
				idx, err = d.decode(by, idx, &iface) // TODO make this process to be efficient
			}
''', '''			fld, found := tags[string(key)]
			if !found {
				fld, found = tags[strings.Title(string(key))]
			}

			if found {
				idx, err = d.decodeViaReflection(by, idx, ptr.Field(fld))
			} else {
				// struct doesn't contain field with strkey name
				var iface interface{}
				idx, err = d.decode(by, idx, &iface) // TODO make this process to be efficient
			}
'''))
r('class-helper',
  (D, '''	if !isObjectV {
		// typeOBJECT
		className, idx, err = d.decodeStringish(by, idx)
	} else {
		// typeOBJECTV
		var offs, sz int
		offs, sz, err = varintdecode(by[idx:])
		if err != nil {
			return 0, err
		}
		if offs < d.firstOffs || offs >= idx {
			return 0, ErrCorrupt{errBadOffset}
		}
		idx += sz
		className, _, err = d.decodeStringish(by, offs)
	}

	if err != nil {
		return 0, err
	}

	if d.PerlCompat {''', '''	className, idx, err = d.decodeClassName(by, idx, isObjectV)
	if err != nil {
		return 0, err
	}

	if d.PerlCompat {'''),
  (D, '''	if !isObjectV {
		// typeOBJECT_FREEZE
		className, idx, err = d.decodeStringish(by, idx)
		if err != nil {
			return 0, err
		}
	} else {
		// typeOBJECTV_FREEZE
		offs, sz, err := varintdecode(by[idx:])
		if err != nil {
			return 0, err
		}
		if offs < d.firstOffs || offs >= idx {
			return 0, ErrCorrupt{errBadOffset}
		}
		idx += sz
		className, _, err = d.decodeStringish(by, offs)
		if err != nil {
			return 0, err
		}
	}

	if err != nil {
		return 0, err
	}
''', '''	if className, idx, err = d.decodeClassName(by, idx, isObjectV); err != nil {
		return 0, err
	}
'''),
  (D, '\nfunc (d *Decoder) decodeREFP_ALIAS', '''
func (d *Decoder) decodeClassName(by []byte, idx int, byRef bool) ([]byte, int, error) {
	if !byRef {
		return d.decodeStringish(by, idx)
	}
	offs, sz, err := varintdecode(by[idx:])
	if err != nil {
		return nil, 0, err
	}
	if offs < d.firstOffs || offs >= idx {
		return nil, 0, ErrCorrupt{errBadOffset}
	}
	name, _, err := d.decodeStringish(by, offs)
	return name, idx + sz, err
}

func (d *Decoder) decodeREFP_ALIAS'''))
r('freeze-nesting',
  (D, '''	wrapper, ok := iface.([]interface{})
	if !ok {
		return 0, ErrCorrupt{errFreezeNotArray}
	}

	if len(wrapper) != 1 {
		return 0, ErrCorrupt{errFreezeMultipleElts}
	}

	// Expecting a single item in the array ref
	if classData, ok = wrapper[0].([]byte); !ok {
		return 0, ErrCorrupt{errFreezeNotByteSlice}
	}
''', '''	classData, err = frozenBytes(iface)
	if err != nil {
		return 0, err
	}
'''),
  (D, '\nfunc (d *Decoder) decodeREFP_ALIAS', '''
// frozenBytes unpacks the single byte string a frozen object consists of
func frozenBytes(v interface{}) ([]byte, error) {
	wrapper, ok := v.([]interface{})
	switch {
	case !ok:
		return nil, ErrCorrupt{errFreezeNotArray}
	case len(wrapper) != 1:
		return nil, ErrCorrupt{errFreezeMultipleElts}
	}
	data, ok := wrapper[0].([]byte)
	if !ok {
		return nil, ErrCorrupt{errFreezeNotByteSlice}
	}
	return data, nil
}

func (d *Decoder) decodeREFP_ALIAS'''))
r('refp-error-helper',
  (D, '''		var res reflect.Value
		var corrupt ErrCorrupt
		if isREFP {
			corrupt.Err = errUntrackedOffsetREFP
		} else {
			corrupt.Err = errUntrackedOffsetAlias
		}
		return res, 0, corrupt
''', '''		if isREFP {
			return reflect.Value{}, 0, ErrCorrupt{errUntrackedOffsetREFP}
		}
		return reflect.Value{}, 0, ErrCorrupt{errUntrackedOffsetAlias}
'''))
r('copy-depth-defer',
  (D, '''		d.copyDepth++
		_, err = d.decode(by, offs, ptr)
		d.copyDepth--
''', '''		depth := d.copyDepth
		d.copyDepth = depth + 1
		_, err = d.decode(by, offs, ptr)
		d.copyDepth = depth
'''))
r('track-early',
  (D, '''	trackme := (tag & trackFlag) == trackFlag
	if trackme {
		tag &^= trackFlag
		d.tracked[idx] = reflect.ValueOf(ptr)
	}
''', '''	trackme := tag >= trackFlag
	if trackme {
		d.tracked[idx] = reflect.ValueOf(ptr)
		tag -= trackFlag
	}
'''))
r('undef-switch',
  (D, '''		if d.PerlCompat && tag == typeCANONICAL_UNDEF {
			*ptr = perlCanonicalUndef
		} else if d.PerlCompat {
			*ptr = &PerlUndef{}
		} else {
			*ptr = nil
		}
''', '''		switch {
		case !d.PerlCompat:
			*ptr = nil
		case tag == typeCANONICAL_UNDEF:
			*ptr = perlCanonicalUndef
		default:
			*ptr = new(PerlUndef)
		}
'''))
r('bool-merge',
  (D, '''	case tag == typeTRUE:
		*ptr = true

	case tag == typeFALSE:
		*ptr = false
''', '''	case tag == typeTRUE || tag == typeFALSE:
		*ptr = tag == typeTRUE
'''))
r('tag-switch',
  (D, '''	switch {
	case tag < typeVARINT:
		*ptr = d.decodeInt(tag)

	case tag == typeVARINT:
		var val int
		if val, idx, err = d.decodeVarint(by, idx); err != nil {
			return 0, err
		}
''', '''	if tag < typeVARINT {
		*ptr = d.decodeInt(tag)
		return idx, nil
	}

	switch {
	case tag == typeVARINT:
		var val int
		if val, idx, err = d.decodeVarint(by, idx); err != nil {
			return 0, err
		}
'''))
r('short-ranges',
  (D, 'case tag >= typeSHORT_BINARY_0 && tag < typeSHORT_BINARY_0+32:', 'case tag&^0x1f == typeSHORT_BINARY_0:', ALL),
  (D, 'case tag >= typeARRAYREF_0 && tag < typeARRAYREF_0+16:', 'case tag&0xf0 == typeARRAYREF_0:', ALL))
r('stringish-length',
  (D, '''		if ln < 0 || ln > math.MaxInt32 {
			return nil, 0, ErrCorrupt{errBadStringSize}
		} else if idx+ln > len(by) {
			return nil, 0, ErrTruncated
		}

		res = by[idx : idx+ln]
		idx += ln

	case tag >= typeSHORT_BINARY_0 && tag < typeSHORT_BINARY_0+32:
		ln := int(tag & 0x1F) // get length from tag
		if idx+ln > len(by) {
			return nil, 0, ErrTruncated
		}

		res = by[idx : idx+ln]
		idx += ln
''', '''		return d.decodeBinary(by, idx, ln, false)

	case tag >= typeSHORT_BINARY_0 && tag < typeSHORT_BINARY_0+32:
		return d.decodeBinary(by, idx, int(tag-typeSHORT_BINARY_0), false)
'''))
r('regexp-copy',
  (D, '''	// both are slices of by, so copy them
	return &PerlRegexp{append([]byte{}, pattern...), append([]byte{}, modifiers...)}, idx, nil
''', '''	re := new(PerlRegexp)
	re.Pattern = copyBytes(pattern)
	re.Modifiers = copyBytes(modifiers)
	return re, idx, nil
}

func copyBytes(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
'''))
r('decompress-document',
  (D, '''			dst = make([]byte, 0, bodyStart+len(decompBody))
			dst = append(dst, b[0:bodyStart]...)
			dst = append(dst, decompBody...)
''', '''			doc := make([]byte, bodyStart, bodyStart+len(decompBody))
			copy(doc, b)
			dst = append(doc, decompBody...)
'''))
r('decompress-early',
  (D, '''	if decomp != nil {
		var decompressInto []byte
		if dst != nil && len(dst) >= len(b) {
			decompressInto = dst[bodyStart:]
		} else {
			decompressInto = nil
		}
''', '''	if decomp == nil {
		return append(dst[:0], b...), nil
	}

	{
		var decompressInto []byte
		if len(dst) >= len(b) && dst != nil {
			decompressInto = dst[bodyStart:]
		}
'''),
  (D, '''		dst[4] &= 0x0f
	} else {
		dst = append(dst[:0], b...)
	}
''', '''		dst[4] = dst[4] & 0x0f
	}
'''))
# --- codecs
r('zlib-build',
  ('zlib.go', '''	var head []byte
	head = varint(head, uint(len(buf)))
	head = varint(head, uint(len(tail)))

	return append(head, tail...), nil
''', '''	out := make([]byte, 0, len(tail)+20)
	out = varint(out, uint(len(buf)))
	out = varint(out, uint(len(tail)))
	out = append(out, tail...)
	return out, nil
'''))
r('zlib-readlengths',
  ('zlib.go', '''	if cln < 0 || cln > math.MaxInt32 || csz+cln > len(buf) {
		return nil, ErrCorrupt{errBadOffset}
	}

	if uln < 0 || uln > zlibMaxRatio*cln {
		return nil, ErrCorrupt{errBadOffset}
	}

	buf = buf[csz : csz+cln]

	// XXX Perhaps check if len(buf) == cln

	return zlibDecode(uln, buf)
''', '''	buf = buf[csz:]

	if cln < 0 || cln > math.MaxInt32 || len(buf) < cln {
		return nil, ErrCorrupt{errBadOffset}
	}

	if uln < 0 || uln > zlibMaxRatio*cln {
		return nil, ErrCorrupt{errBadOffset}
	}

	return zlibDecode(uln, buf[:cln])
'''))
r('snappy-build',
  ('snappy.go', '''	if c.Incremental {
		// shrink down b to reuse the allocated buffer
		b = b[:0]
		b = varint(b, uint(len(compressed)))
		b = append(b, compressed...)
	} else {
		b = compressed
	}

	return b, nil
''', '''	if !c.Incremental {
		return compressed, nil
	}

	// reuse the allocated buffer
	b = varint(b[:0], uint(len(compressed)))
	return append(b, compressed...), nil
'''))
r('zlib-readall',
  ('zlib_purego.go', '''	dec := bytes.NewBuffer(make([]byte, 0, uln))
	_, err = dec.ReadFrom(zr)
	if err != nil {
		return nil, err
	}

	// XXX Perhaps check if the number of read bytes == uln
	return dec.Bytes(), nil
''', '''	var dec bytes.Buffer
	dec.Grow(uln)
	if _, err = dec.ReadFrom(zr); err != nil {
		return nil, err
	}
	return dec.Bytes(), nil
'''))
# --- encoder
r('compress-helper',
  (E, '''	if e.Compression != nil && (e.CompressionThreshold == 0 || len(encBody) >= e.CompressionThreshold) {
		encBody, err = e.Compression.compress(encBody)
		if err != nil {
			return nil, err
		}

		var doctype documentType

		switch c := e.Compression.(type) {
''', '''	if e.shouldCompress(encBody) {
		encBody, err = e.Compression.compress(encBody)
		if err != nil {
			return nil, err
		}

		doctype := serealRaw

		switch c := e.Compression.(type) {
'''),
  (E, '\n/*************************************\n * Encode via static types', '''
func (e *Encoder) shouldCompress(body []byte) bool {
	if e.Compression == nil {
		return false
	}
	return e.CompressionThreshold == 0 || len(body) >= e.CompressionThreshold
}

/*************************************
 * Encode via static types'''))
r('header-helper',
  (E, '''	encHeader := make([]byte, headerSize, 32)

	if e.version < 3 {
		binary.LittleEndian.PutUint32(encHeader[:4], magicHeaderBytes)
	} else {
		binary.LittleEndian.PutUint32(encHeader[:4], magicHeaderBytesHighBit)
	}

	// Set the <version-type> component in the header
	encHeader[4] = byte(e.version) | byte(serealRaw)<<4
''', '''	encHeader := appendMagic(make([]byte, 0, 32), e.version)
'''),
  (E, '\n/*************************************\n * Encode via static types', '''
// appendMagic appends the magic and the <version-type> byte
func appendMagic(b []byte, version int) []byte {
	magic := magicHeaderBytes
	if version >= 3 {
		magic = magicHeaderBytesHighBit
	}
	b = append(b, byte(magic), byte(magic>>8), byte(magic>>16), byte(magic>>24))
	return append(b, byte(version))
}

/*************************************
 * Encode via static types'''),
  (E, '	"encoding/binary"\n', ''))
r('varint-append',
  (E, '''	for n >= 0x80 {
		b := byte(n) | 0x80
		by = append(by, b)
		n >>= 7
	}

	return append(by, byte(n))
''', '''	for ; n > 0x7f; n >>= 7 {
		by = append(by, byte(n&0x7f)|0x80)
	}
	by = append(by, byte(n))
	return by
'''))
# --- merger
r('append-rollback',
  (M, '''	// second pass: do the work
	if err := m.mergeItems(&doc); err != nil {
		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
		forgetOffsets(m.strTable, lastElementOffset-m.bodyOffset)
		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
		return 0, err
	}
''', '''	// second pass: do the work
	err = m.mergeItems(&doc)
	if err != nil {
		m.rollback(lastElementOffset)
		return 0, err
	}
'''),
  (M, '\n// Finish is called', '''
// rollback removes everything from offset on
func (m *Merger) rollback(offset int) {
	m.buf = m.buf[:offset] // remove appended stuff
	first := offset - m.bodyOffset
	forgetOffsets(m.strTable, first)
	forgetOffsets(m.objTable, first)
}

// Finish is called'''))
r('finish-early',
  (M, '''	if !m.finished {
		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))

		if''', '''	if m.finished {
		return m.buf, nil
	}

	{
		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))

		if'''))
r('init-helper',
  (M, '''	// remember len offset + pad bytes for length
	m.lenOffset = len(m.buf)
	for i := 0; i < binary.MaxVarintLen32; i++ {
		m.buf = append(m.buf, typePAD)
	}
''', '''	// remember len offset + pad bytes for length
	m.lenOffset = len(m.buf)
	m.buf = append(m.buf, typePAD, typePAD, typePAD, typePAD, typePAD)
'''))

# --- the encoder's writers
r('enc-state-helper',
  (E, '''		state := marshalState{
			strTable: make(map[string]int),
			ptrTable: make(map[objectID]int),
		}

		// this is''', '''		state := newMarshalState()

		// this is'''),
  (E, '''	state := marshalState{
		strTable: make(map[string]int),
		ptrTable: make(map[objectID]int),
	}

	encBody''', '''	state := newMarshalState()

	encBody'''),
  (E, 'e.encode(henv, header, false, false, &state,', 'e.encode(henv, header, false, false, state,'),
  (E, 'e.encode(encBody, body, false, false, &state,', 'e.encode(encBody, body, false, false, state,', ALL),
  (E, '''// NewEncoderV3 returns''', '''func newMarshalState() *marshalState {
	return &marshalState{strTable: map[string]int{}, ptrTable: map[objectID]int{}}
}

// NewEncoderV3 returns'''))
r('enc-depth-helper',
  (E, '''	remainingDepth--
	if remainingDepth <= 0 {
		return nil, ErrMaxRecursionLimit
	}

	if e.PerlCompat && !isRefNext {''', '''	remainingDepth, err := descend(remainingDepth)
	if err != nil {
		return nil, err
	}

	if e.PerlCompat && !isRefNext {''', ALL),
  (E, '''	by = varint(by, uint(l))

	var err error
''', '''	by = varint(by, uint(l))

''', ALL),
  (E, '''	by = varint(by, uint(len(m)))

	var err error
''', '''	by = varint(by, uint(len(m)))

'''),
  (E, '''	by = varint(by, uint(len(keys)))

	var err error
''', '''	by = varint(by, uint(len(keys)))

'''),
  (E, '''func varint(by''', '''func descend(depth int) (int, error) {
	if depth <= 1 {
		return 0, ErrMaxRecursionLimit
	}
	return depth - 1, nil
}

func varint(by'''))
r('enc-container-head',
  (E, '''	if e.PerlCompat && !isRefNext {
		by = append(by, typeREFN)
	}

	// TODO implement ARRAYREF for small arrays

	l := len(arr)
	by = append(by, typeARRAY)
	by = varint(by, uint(l))
''', '''	// TODO implement ARRAYREF for small arrays

	l := len(arr)
	by = e.startContainer(by, typeARRAY, l, isRefNext)
'''),
  (E, '''	if e.PerlCompat && !isRefNext {
		by = append(by, typeREFN)
	}

	l := arr.Len()
	by = append(by, typeARRAY)
	by = varint(by, uint(l))
''', '''	l := arr.Len()
	by = e.startContainer(by, typeARRAY, l, isRefNext)
'''),
  (E, '''	if e.PerlCompat && !isRefNext {
		by = append(by, typeREFN)
	}

	keys := m.MapKeys()
	by = append(by, typeHASH)
	by = varint(by, uint(len(keys)))
''', '''	keys := m.MapKeys()
	by = e.startContainer(by, typeHASH, len(keys), isRefNext)
'''),
  (E, '''	if e.PerlCompat && !isRefNext {
		by = append(by, typeREFN)
	}

	// TODO implement HASHREF for small maps

	by = append(by, typeHASH)
	by = varint(by, uint(len(m)))
''', '''	by = e.startContainer(by, typeHASH, len(m), isRefNext)
'''),
  (E, '''func varint(by''', '''// startContainer writes the tag and the number of elements.
func (e *Encoder) startContainer(by []byte, tag byte, n int, isRefNext bool) []byte {
	if !isRefNext && e.PerlCompat {
		by = append(by, typeREFN)
	}
	return varint(append(by, tag), uint(n))
}

func varint(by'''))
r('enc-range-array',
  (E, '''	for i := 0; i < l; i++ {
		if by, err = e.encode(by, arr[i], false''', '''	for _, elem := range arr {
		if by, err = e.encode(by, elem, false'''))
r('enc-array-while',
  (E, '''	for i := 0; i < l; i++ {
		if by, err = e.encode(by, arr.Index(i), false, false, state, remainingDepth); err != nil {
			return nil, err
		}
	}
''', '''	i := 0
	for {
		if i == l {
			break
		}
		by, err = e.encode(by, arr.Index(i), false, false, state, remainingDepth)
		if err != nil {
			return nil, err
		}
		i++
	}
'''))
r('enc-mapiter',
  (E, '''	keys := m.MapKeys()
	by = append(by, typeHASH)
	by = varint(by, uint(len(keys)))
''', '''	by = append(by, typeHASH)
	by = varint(by, uint(m.Len()))
'''),
  (E, '''	for _, k := range keys {
		for k.Kind()''', '''	for iter := m.MapRange(); iter.Next(); {
		k, v := iter.Key(), iter.Value()
		for k.Kind()'''),
  (E, '''		v := m.MapIndex(k)
		by = e.encodeString(by, k.String()''', '''		by = e.encodeString(by, k.String()'''))
r('enc-mapvalue-first',
  (E, '''		for k.Kind() == reflect.Interface {
			k = k.Elem()
		}

		if k.Kind() != reflect.String {''', '''		v := m.MapIndex(k)
		if k.Kind() == reflect.Interface {
			k = k.Elem()
		}

		if k.Kind() != reflect.String {'''),
  (E, '''		v := m.MapIndex(k)
		by = e.encodeString(by, k.String()''', '''		by = e.encodeString(by, k.String()'''))
r('enc-int-if',
  (E, '''	switch {
	case 0 <= i && i <= 15:
		by = append(by, byte(i)&0x0f)
	case -16 <= i && i < 0 && k == reflect.Int:
		by = append(by, 0x010|(byte(i)&0x0f))
	case i > 15:
		by = append(by, typeVARINT)
		by = varint(by, uint(i))
	case i < 0:
		n := uint(i)
		if k == reflect.Int {
			by = append(by, typeZIGZAG)
			n = uint((i << 1) ^ (i >> 63))
		} else {
			by = append(by, typeVARINT)
		}

		by = varint(by, n)
	}

	return by
''', '''	if k == reflect.Int && i < 0 {
		if i >= -16 {
			return append(by, byte(i+32))
		}
		return varint(append(by, typeZIGZAG), uint(^(i << 1)))
	}

	if n := uint64(i); n < 16 {
		return append(by, byte(n))
	}
	return varint(append(by, typeVARINT), uint(i))
'''))
r('enc-float-append',
  (E, '''	return append(by, typeFLOAT, byte(u), byte(u>>8), byte(u>>16), byte(u>>24))
''', '''	by = append(by, typeFLOAT)
	return binary.LittleEndian.AppendUint32(by, u)
'''),
  (E, '''	return append(by, typeDOUBLE, byte(u), byte(u>>8), byte(u>>16), byte(u>>24), byte(u>>32), byte(u>>40), byte(u>>48), byte(u>>56))
''', '''	var tmp [9]byte
	tmp[0] = typeDOUBLE
	binary.LittleEndian.PutUint64(tmp[1:], u)
	return append(by, tmp[:]...)
'''))
r('enc-float-loop',
  (E, '''	return append(by, typeDOUBLE, byte(u), byte(u>>8), byte(u>>16), byte(u>>24), byte(u>>32), byte(u>>40), byte(u>>48), byte(u>>56))
''', '''	by = append(by, typeDOUBLE)
	for i := 0; i < 8; i++ {
		by = append(by, byte(u))
		u >>= 8
	}
	return by
'''))
r('enc-json-errors-is',
  (E, '''		numErr, isNumErr := err.(*strconv.NumError)
		if isNumErr && numErr.Err == strconv.ErrRange {
''', '''		if errors.Is(err, strconv.ErrRange) {
'''))
r('enc-json-early',
  (E, '''	if err == nil {
		return e.encodeInt(by, reflect.Int, int64Value)
	} else {
''', '''	if err == nil {
		return e.encodeInt(by, reflect.Int, int64Value)
	}
	{
'''),
  (E, '''		if isNumErr && numErr.Err == strconv.ErrRange {
			return e.encodeString(by, n.String(), isKeyOrClass, strTable)
		}
	}

	if float64Value, err := n.Float64(); err == nil {
		return e.encodeDouble(by, float64Value)
	}

	return e.encodeString(by, n.String(), isKeyOrClass, strTable)
''', '''		if !isNumErr || numErr.Err != strconv.ErrRange {
			if float64Value, err := n.Float64(); err == nil {
				return e.encodeDouble(by, float64Value)
			}
		}
	}

	return e.encodeString(by, string(n), isKeyOrClass, strTable)
'''))
r('enc-copy-helper',
  (E, '''		if copyOffs, ok := strTable[s]; ok {
			by = append(by, typeCOPY)
			by = varint(by, uint(copyOffs))
			return by
		}
		strTable[s] = len(by)
''', '''		if by, ok := appendCopy(by, s, strTable); ok {
			return by
		}
'''),
  (E, '''		if copyOffs, ok := strTable[string(byt)]; ok {
			by = append(by, typeCOPY)
			by = varint(by, uint(copyOffs))
			return by
		}
		// save for later
		strTable[string(byt)] = len(by)
''', '''		if by, ok := appendCopy(by, string(byt), strTable); ok {
			return by
		}
'''),
  (E, '''func varint(by''', '''// appendCopy writes a COPY of a string seen before, or notes where it is.
func appendCopy(by []byte, s string, strTable map[string]int) ([]byte, bool) {
	offs, seen := strTable[s]
	if !seen {
		strTable[s] = len(by)
		return nil, false
	}
	return varint(append(by, typeCOPY), uint(offs)), true
}

func varint(by'''))
r('enc-bytes-else',
  (E, '''	if l := len(byt); l < 32 {
		by = append(by, typeSHORT_BINARY_0+byte(l))
	} else {
		by = append(by, typeBINARY)
		by = varint(by, uint(l))
	}

	return append(by, byt...)
''', '''	l := len(byt)
	if l > 31 {
		by = varint(append(by, typeBINARY), uint(l))
		return append(by, byt...)
	}

	by = append(by, byte(typeSHORT_BINARY_0|l))
	return append(by, byt...)
'''))
r('enc-varint-loop',
  (E, '''	for n >= 0x80 {
		b := byte(n) | 0x80
		by = append(by, b)
		n >>= 7
	}

	return append(by, byte(n))
''', '''	for {
		b := byte(n & 0x7f)
		n >>= 7
		if n == 0 {
			return append(by, b)
		}
		by = append(by, b|0x80)
	}
'''))
r('enc-varint-binary',
  (E, '''	for n >= 0x80 {
		b := byte(n) | 0x80
		by = append(by, b)
		n >>= 7
	}

	return append(by, byte(n))
''', '''	return binary.AppendUvarint(by, uint64(n))
'''))
r('enc-pointer-early',
  (E, '''	if ok { // seen this before
		by = append(by, typeREFP)
		by = varint(by, uint(offs))
		by[offs] |= trackFlag // original offset now tracked
	} else {
		lenbOrig := len(by)

		by = append(by, typeREFN)

		if rvptr.ptr != 0 {
			state.ptrTable[rvptr] = lenbOrig
		}

		var err error
		by, err = e.encode(by, rv.Elem(), false, true, state, remainingDepth)
		if err != nil {
			return nil, err
		}

		if rvptr2.ptr != 0 {
			// The thing this this points to starts one after the current pointer
			state.ptrTable[rvptr2] = lenbOrig + 1
		}
	}

	return by, nil
''', '''	if ok { // seen this before
		by[offs] |= trackFlag // original offset now tracked
		return varint(append(by, typeREFP), uint(offs)), nil
	}

	start := len(by)
	if rvptr.ptr != 0 {
		state.ptrTable[rvptr] = start
	}

	by, err := e.encode(append(by, typeREFN), rv.Elem(), false, true, state, remainingDepth)
	if err != nil {
		return nil, err
	}

	if rvptr2.ptr != 0 {
		// The thing this this points to starts one after the current pointer
		state.ptrTable[rvptr2] = start + 1
	}

	return by, nil
'''))
r('enc-pointer-helper',
  (E, '''	offs, ok := state.ptrTable[rvptr]

	if !ok && rvptr2.ptr != 0 {
		offs, ok = state.ptrTable[rvptr2]
		if ok {
			rvptr = rvptr2
		}
	}
''', '''	offs, ok := state.lookup(rvptr, rvptr2)
'''),
  (E, '''func varint(by''', '''// lookup finds where a pointer, or what it points to, was written.
func (s *marshalState) lookup(ptr, target objectID) (int, bool) {
	if offs, ok := s.ptrTable[ptr]; ok {
		return offs, true
	}
	if target.ptr == 0 {
		return 0, false
	}
	offs, ok := s.ptrTable[target]
	return offs, ok
}

func varint(by'''))
r('enc-wrappers-merge',
  (E, '''		switch rv.Elem().Interface().(type) {
		case PerlRegexp:
			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
		case PerlUndef:
			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
		case PerlObject:
			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
		case PerlWeakRef:
			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
		}
''', '''		switch rv.Elem().Interface().(type) {
		case PerlRegexp, PerlUndef, PerlObject, PerlWeakRef:
			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
		}
'''))
r('enc-getpointer-loop',
  (E, '''	var id objectID

	switch rv.Kind() {
	case reflect.Slice:
		id =''', '''	var id objectID

	for rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}

	switch rv.Kind() {
	case reflect.Slice:
		id ='''),
  (E, '''	case reflect.Interface:
		// FIXME: still needed?
		return getPointer(rv.Elem())
''', ''))
r('enc-freeze-helper',
  (E, '''		if m, ok := rv.Interface().(encoding.BinaryMarshaler); ok {
			by, err := m.MarshalBinary()
			if err != nil {
				return nil, err
			}

			b = append(b, typeOBJECT_FREEZE)
			b = e.encodeString(b, concreteName(rv), true, state.strTable)
			b = append(b, typeREFN)
			b = append(b, typeARRAY)
			b = varint(b, uint(1))
			return e.encode(b, reflect.ValueOf(by), false, false, state, remainingDepth)
		}
	}
''', '''		if m, ok := rv.Interface().(encoding.BinaryMarshaler); ok {
			return e.encodeFrozen(b, rv, m, state)
		}
	}
'''),
  (E, '''func varint(by''', '''func (e *Encoder) encodeFrozen(b []byte, rv reflect.Value, m encoding.BinaryMarshaler, state *marshalState) ([]byte, error) {
	payload, err := m.MarshalBinary()
	if err != nil {
		return nil, err
	}

	b = append(b, typeOBJECT_FREEZE)
	b = e.encodeString(b, concreteName(rv), true, state.strTable)
	b = append(b, typeREFN, typeARRAY, 1)
	return e.encodeBytes(b, payload, false, state.strTable), nil
}

func varint(by'''))
r('enc-nokind-switch',
  (E, '''	switch rk := rv.Kind(); rk {
	case reflect.Slice:
		// uint8 case is handled in encode()
		fallthrough

	case reflect.Array:
		b, err = e.encodeArray(b, rv, isRefNext, state, remainingDepth)
''', '''	switch rk := rv.Kind(); rk {
	case reflect.Slice, reflect.Array:
		// uint8 case is handled in encode()
		b, err = e.encodeArray(b, rv, isRefNext, state, remainingDepth)
'''),
  (E, '''	case reflect.Bool:
		if rv.Bool() {
			b = append(b, typeTRUE)
		} else {
			b = append(b, typeFALSE)
		}
''', '''	case reflect.Bool:
		b = encodeBool(b, rv.Bool())
'''),
  (E, '''	case bool:
		if value {
			b = append(b, typeTRUE)
		} else {
			b = append(b, typeFALSE)
		}
''', '''	case bool:
		b = encodeBool(b, value)
'''),
  (E, '''func varint(by''', '''func encodeBool(b []byte, v bool) []byte {
	tag := byte(typeFALSE)
	if v {
		tag = typeTRUE
	}
	return append(b, tag)
}

func varint(by'''))
r('enc-struct-sorted',
  (E, '''	for f, i := range tags {
		by = e.encodeString(by, f, true, state.strTable)
		if by, err = e.encode(by, st.Field(i), false, false, state, remainingDepth); err != nil {
			return nil, err
		}
	}
''', '''	for name, index := range tags {
		field := st.Field(index)
		by = e.encodeString(by, name, true, state.strTable)
		by, err = e.encode(by, field, false, false, state, remainingDepth)
		if err != nil {
			return nil, err
		}
	}
'''))
r('enc-body-offset',
  (E, '''	switch e.version {
	case 1:
		encBody = append(encBody, encHeader...) // hack for offsets
		encBody, err = e.encode(encBody, body, false, false, &state, remainingDepth)
		if len(encBody) >= len(encHeader) {
			encBody = encBody[len(encHeader):] // trim hacky bytes
		}
	case 2, 3:
		encBody = append(encBody, 0) // hack for 1-based offsets
		encBody, err = e.encode(encBody, body, false, false, &state, remainingDepth)
		if len(encBody) >= 1 {
			encBody = encBody[1:] // trim hacky first byte
		}
	}

	if err != nil {
		return nil, err
	}
''', '''	// hack for 1-based offsets, or for those of version 1
	encBody = append(encBody, 0)
	if e.version == 1 {
		encBody = append(encBody[:0], encHeader...)
	}
	hack := len(encBody)

	encBody, err = e.encode(encBody, body, false, false, &state, remainingDepth)
	if err != nil {
		return nil, err
	}
	encBody = encBody[hack:] // trim hacky bytes
'''))

HANDLER = '''		if r := recover(); r != nil {
			if _, ok := r.(runtime.Error); ok {
				panic(r)
			}

			switch t := r.(type) {
			case string:
				err = errors.New(t)
			case error:
				err = t
			default:
				err = fmt.Errorf("sereal: panic while %s: %%v", r)
			}
		}
'''
r('panic-helper',
  (D, '''	defer func() {
''' + HANDLER % 'decoding' + '''	}()
''', '''	defer recoverInto(&err, "decoding")
'''),
  (E, '''	defer func() {
		//return
''' + HANDLER % 'encoding' + '''	}()
''', '''	defer recoverInto(&err, "encoding")
'''),
  (D, '''// UnmarshalHeaderBody parses''', '''func recoverInto(err *error, what string) {
	switch r := recover().(type) {
	case nil:
	case runtime.Error:
		panic(r)
	case error:
		*err = r
	case string:
		*err = errors.New(r)
	default:
		*err = fmt.Errorf("sereal: panic while %s: %v", what, r)
	}
}

// UnmarshalHeaderBody parses'''),
  (E, '''	"runtime"
''', ''))
r('panic-convert',
  (E, HANDLER % 'encoding', '''		if r := recover(); r != nil {
			err = panicErr(r)
		}
'''),
  (E, '''// MarshalWithHeader returns''', '''func panicErr(r interface{}) error {
	if f, ok := r.(runtime.Error); ok {
		panic(f)
	}
	if s, ok := r.(string); ok {
		return errors.New(s)
	}
	if e, ok := r.(error); ok {
		return e
	}
	return fmt.Errorf("sereal: panic while encoding: %v", r)
}

// MarshalWithHeader returns'''))

r('tags-helper', (T, '''	l := ptrType.NumField()
	for i := 0; i < l; i++ {
		field := ptrType.Field(i).Tag.Get("sereal")
		if field == "-" {
			// sereal tag is "-" -- skip
			continue
		}

		if field == "" {
			// no tag? make one from the field name
			if pkgpath := ptrType.Field(i).PkgPath; pkgpath != "" {
				// field not exported -- skip
				continue
			}
			field = ptrType.Field(i).Name
		}
		m[field] = i
	}
''', '''	l := ptrType.NumField()
	for i := 0; i < l; i++ {
		if name, ok := fieldName(ptrType.Field(i)); ok {
			m[name] = i
		}
	}
'''), (T, '''type tagsCache struct {''', '''func fieldName(f reflect.StructField) (string, bool) {
	switch tag := f.Tag.Get("sereal"); {
	case tag == "-":
		return "", false
	case tag != "":
		return tag, true
	case f.PkgPath != "":
		return "", false
	}
	return f.Name, true
}

type tagsCache struct {'''))
r('tags-build', (T, '''	m := make(map[string]int)

	l := ptrType.NumField()''', '''	m := buildTags(ptrType)
	tc.cmap[ptrType] = m
	return m
}

func buildTags(ptrType reflect.Type) map[string]int {
	m := map[string]int{}
	l := ptrType.NumField()'''), (T, '''	// empty map -- may as well store a nil
	if len(m) == 0 {
		m = nil
	}

	tc.cmap[ptrType] = m
	return m
''', '''	// empty map -- may as well store a nil
	if len(m) > 0 {
		return m
	}
	return nil
'''))
r('tags-exported', (T, '''if pkgpath := ptrType.Field(i).PkgPath; pkgpath != "" {''', '''if !ptrType.Field(i).IsExported() {'''))
r('tags-lookup', (T, '''	l := ptrType.NumField()
	for i := 0; i < l; i++ {
		field := ptrType.Field(i).Tag.Get("sereal")''', '''	for i, n := 0, ptrType.NumField(); i != n; i++ {
		sf := ptrType.Field(i)
		field := sf.Tag.Get("sereal")'''), (T, '''ptrType.Field(i).PkgPath''', '''sf.PkgPath'''), (T,'''ptrType.Field(i).Name''','''sf.Name'''))
r('tags-down', (T, '''	l := ptrType.NumField()
	for i := 0; i < l; i++ {''', '''	for i := 0; i < ptrType.NumField(); i++ {'''))
r('array-surplus-split', (D, '''	for i := 0; i < ln; i++ {
		if i < ptrLen {
			idx, err = d.decodeViaReflection(by, idx, ptr.Index(i))
		} else {
			// we went outside of array length, so ignore folowwing content
			var iface interface{}
			idx, err = d.decode(by, idx, &iface) // TODO make this process to be efficient
		}

		if err != nil {
			return 0, err
		}
	}
''', '''	i := 0
	for ; i < ln && i < ptrLen; i++ {
		if idx, err = d.decodeViaReflection(by, idx, ptr.Index(i)); err != nil {
			return 0, err
		}
	}

	// we went outside of array length, so ignore folowwing content
	for ; i < ln; i++ {
		var iface interface{}
		if idx, err = d.decode(by, idx, &iface); err != nil {
			return 0, err
		}
	}
'''))
r('field-target', (D, '''			var fld int
			var found bool

			if tags == nil {
				// do nothing
			} else if fld, found = tags[string(key)]; found {
				idx, err = d.decodeViaReflection(by, idx, ptr.Field(fld))
			} else if fld, found = tags[strings.Title(string(key))]; found {
				idx, err = d.decodeViaReflection(by, idx, ptr.Field(fld))
			}

			if !found {
				// struct doesn't contain field with strkey name
				var iface interface{}
				idx, err = d.decode(by, idx, &iface) // TODO make this process to be efficient
			}
''', '''			fld, found := lookupField(tags, string(key))
			if found {
				idx, err = d.decodeViaReflection(by, idx, ptr.Field(fld))
			} else {
				// struct doesn't contain field with strkey name
				var iface interface{}
				idx, err = d.decode(by, idx, &iface) // TODO make this process to be efficient
			}
'''), (D, '''func (d *Decoder) decodeREFP_ALIAS(''', '''func lookupField(tags map[string]int, name string) (int, bool) {
	if fld, ok := tags[name]; ok {
		return fld, true
	}
	fld, ok := tags[strings.Title(name)]
	return fld, ok
}

func (d *Decoder) decodeREFP_ALIAS('''))
r('map-value-first', (D, '''			keyValue := reflect.ValueOf(string(key))
			if value := ptr.MapIndex(keyValue); value.IsValid() {
				// strkey exists in map, replace its content but respect structure
				idx, err = d.decodeViaReflection(by, idx, value)
			} else {
				// there is no strkey in map, crete a new one
				riface := reflect.New(ptr.Type().Elem())
				idx, err = d.decodeViaReflection(by, idx, riface.Elem())
				if err != nil {
					return 0, err
				}

				ptr.SetMapIndex(keyValue, riface.Elem())
			}

			if err != nil {
				return 0, err
			}
''', '''			name := string(key)
			keyValue := reflect.ValueOf(name)
			value := ptr.MapIndex(keyValue)
			isNew := !value.IsValid()
			if isNew {
				// there is no strkey in map, crete a new one
				value = reflect.New(ptr.Type().Elem()).Elem()
			}
			if idx, err = d.decodeViaReflection(by, idx, value); err != nil {
				return 0, err
			}
			if isNew {
				ptr.SetMapIndex(keyValue, value)
			}
'''))
r('struct-encode-sorted-free', (E, '''	for f, i := range tags {
		by = e.encodeString(by, f, true, state.strTable)
		if by, err = e.encode(by, st.Field(i), false, false, state, remainingDepth); err != nil {
			return nil, err
		}
	}
''', '''	for f := range tags {
		by = e.encodeString(by, f, true, state.strTable)
		v := st.Field(tags[f])
		by, err = e.encode(by, v, false, false, state, remainingDepth)
		if err != nil {
			return nil, err
		}
	}
'''))

ZP = 'zlib_purego.go'
r('pool-acquire', (ZP, '''	pool := zlibWriterPools[level]
	if pool == nil {
		return nil, fmt.Errorf("unknown level %d", level)
	}

	var comp bytes.Buffer
	zw := pool.Get().(*zlib.Writer)
	defer pool.Put(zw)
	zw.Reset(&comp)
''', '''	var comp bytes.Buffer
	zw, release, err := acquireZlib(level, &comp)
	if err != nil {
		return nil, err
	}
	defer release()
'''), (ZP, '''	_, err := zw.Write(buf)
''', '''	_, err = zw.Write(buf)
'''), (ZP, '''func zlibEncode(''', '''func acquireZlib(level int, dst *bytes.Buffer) (*zlib.Writer, func(), error) {
	pool, ok := zlibWriterPools[level]
	if !ok {
		return nil, nil, fmt.Errorf("unknown level %d", level)
	}
	zw := pool.Get().(*zlib.Writer)
	zw.Reset(dst)
	return zw, func() { pool.Put(zw) }, nil
}

func zlibEncode('''))
r('pool-nodefer', (ZP, '''	defer pool.Put(zw)
	zw.Reset(&comp)

	_, err := zw.Write(buf)
	if err != nil {
		return nil, err
	}

	err = zw.Close()
	if err != nil {
		return nil, err
	}
''', '''	zw.Reset(&comp)
	_, err := zw.Write(buf)
	if err == nil {
		err = zw.Close()
	}
	pool.Put(zw)
	if err != nil {
		return nil, err
	}
'''))
r('pool-new', (ZP, '''		level := i
		zlibWriterPools[i] = &sync.Pool{
			New: func() interface{} {
				zw, _ := zlib.NewWriterLevel(nil, level)
				return zw
			},
		}
	}
}
''', '''		zlibWriterPools[i] = newZlibPool(i)
	}
}

func newZlibPool(level int) *sync.Pool {
	return &sync.Pool{
		New: func() interface{} {
			zw, err := zlib.NewWriterLevel(nil, level)
			if err != nil {
				panic(err)
			}
			return zw
		},
	}
}
'''))
r('pool-buffer', (ZP, '''	var comp bytes.Buffer
''', '''	comp := bytes.NewBuffer(nil)
'''), (ZP, '''zw.Reset(&comp)''', '''zw.Reset(comp)'''))
r('pool-discard', (ZP, '''	defer pool.Put(zw)
''', '''	defer func() {
		// do not keep the output alive
		zw.Reset(ioutil.Discard)
		pool.Put(zw)
	}()
'''), (ZP, '''	"fmt"
''', '''	"fmt"
	"io/ioutil"
'''))

r('reuse-reset-helper', (D, '\td.copyDepth = 0\n', '\td.reset()\n'), (D, 'func checkHeader(', 'func (d *Decoder) reset() {\n\td.copyDepth = 0\n\td.tracked = nil\n}\n\nfunc checkHeader('))
r('reuse-depth-deferred', (D, '\td.copyDepth = 0\n', '\tdefer func() { d.copyDepth = 0 }()\n'))
r('reuse-version-helper', (E, '\tif e.version == 0 {\n\t\te.version = ProtocolVersion\n\t}\n', '\te.initVersion()\n'), (E, '/*************************************\n * Encode via static', 'func (e *Encoder) initVersion() {\n\tif e.version != 0 {\n\t\treturn\n\t}\n\te.version = ProtocolVersion\n}\n\n/*************************************\n * Encode via static'))
r('reuse-version-local', (E, '\tif e.version == 0 {\n\t\te.version = ProtocolVersion\n\t}\n', '\tver := e.version\n\tif ver == 0 {\n\t\tver = ProtocolVersion\n\t\te.version = ver\n\t}\n'), (E, '\tif e.version < 3 {\n\t\tbinary', '\tif ver < 3 {\n\t\tbinary'))

r('copy-flag-bool', (D, '\tcopyDepth int\n', '\tinCopy bool\n'), (D, '\td.copyDepth = 0\n', '\td.inCopy = false\n'), (D, '\t\td.copyDepth++\n', '\t\td.inCopy = true\n'), (D, '\t\td.copyDepth--\n', '\t\td.inCopy = false\n'), (D, 'd.copyDepth > 0', 'd.inCopy'), (D, '\t\td.copyDepth++\n', '\t\td.inCopy = true\n'), (D, '\t\td.copyDepth--\n', '\t\td.inCopy = false\n'), (D, 'd.copyDepth > 0', 'd.inCopy'), (D, '\t\td.copyDepth++\n', '\t\td.inCopy = true\n'), (D, '\t\td.copyDepth--\n', '\t\td.inCopy = false\n'), (D, 'd.copyDepth > 0', 'd.inCopy'))
r('pad-recursive', (D, '\tfor tag == typePAD || tag == typePAD|trackFlag {\n\t\tidx++\n\t\tif idx >= len(by) {\n\t\t\treturn 0, ErrTruncated\n\t\t}\n\n\t\ttag = by[idx]\n\t}\n', '\tif tag == typePAD || tag == typePAD|trackFlag {\n\t\treturn d.decode(by, idx+1, ptr)\n\t}\n'))
r('alias-copy-append', (D, '\t\tres := make([]byte, ln)\n\t\tcopy(res, by[idx:idx+ln])\n\t\treturn res, idx + ln, nil\n', '\t\treturn append(make([]byte, 0, ln), by[idx:idx+ln]...), idx + ln, nil\n'))
r('alias-nocopy-first', (D, '\tif makeCopy {\n\t\tres := make([]byte, ln)\n\t\tcopy(res, by[idx:idx+ln])\n\t\treturn res, idx + ln, nil\n\t}\n\n\treturn by[idx : idx+ln], idx + ln, nil\n', '\tval := by[idx : idx+ln]\n\tif makeCopy {\n\t\tres := make([]byte, ln)\n\t\tcopy(res, val)\n\t\tval = res\n\t}\n\treturn val, idx + ln, nil\n'))

r('mrg-all-consumed', (M, '''	for _, n := range stack {
		if n&^hashKeysValuesFlag != 0 {
			return ErrTruncated
		}
	}
''', '''	if !allConsumed(stack) {
		return ErrTruncated
	}
'''), (M, 'func isShallowStringish(', '''// allConsumed reports whether nothing is expected any more
func allConsumed(counts []uint64) bool {
	for _, n := range counts {
		if n&^hashKeysValuesFlag != 0 {
			return false
		}
	}
	return true
}

func isShallowStringish('''))
r('mrg-scan-index', (M, '''	for _, n := range stack {
		if n&^hashKeysValuesFlag != 0 {
			return ErrTruncated
		}
	}
''', '''	for i := 0; i < len(stack); i++ {
		if rest := stack[i] &^ hashKeysValuesFlag; rest > 0 {
			return ErrTruncated
		}
	}
'''))
r('mrg-scan-down', (M, '''	for _, n := range stack {
		if n&^hashKeysValuesFlag != 0 {
			return ErrTruncated
		}
	}
''', '''	for i := len(stack) - 1; i >= 0; i-- {
		if stack[i]&^hashKeysValuesFlag != 0 {
			return ErrTruncated
		}
	}
'''))
r('mrg-copy-fixed', (M, '''			if len(dbuf)-didx < 5 {
				return ErrTruncated
			}
			mbuf = append(mbuf, dbuf[didx:didx+5]...)
			didx += 5 // 4 bytes + tag
''', '''			if mbuf, didx, err = copyFixed(mbuf, dbuf, didx, 5); err != nil { // 4 bytes + tag
				return err
			}
'''), (M, '''			if len(dbuf)-didx < 9 {
				return ErrTruncated
			}
			mbuf = append(mbuf, dbuf[didx:didx+9]...)
			didx += 9 // 8 bytes + tag
''', '''			if mbuf, didx, err = copyFixed(mbuf, dbuf, didx, 9); err != nil { // 8 bytes + tag
				return err
			}
'''), (M, '''			if len(dbuf)-didx < 17 {
				return ErrTruncated
			}
			mbuf = append(mbuf, dbuf[didx:didx+17]...)
			didx += 17 // 16 bytes + tag
''', '''			if mbuf, didx, err = copyFixed(mbuf, dbuf, didx, 17); err != nil { // 16 bytes + tag
				return err
			}
'''), (M, 'func isShallowStringish(', '''// copyFixed copies an item of size bytes
func copyFixed(dst, src []byte, idx, size int) ([]byte, int, error) {
	if len(src)-idx < size {
		return dst, idx, ErrTruncated
	}
	return append(dst, src[idx:idx+size]...), idx + size, nil
}

func isShallowStringish('''))
r('mrg-mark-index', (M, '''	for _, pos := range tracked {
		mbuf[pos] |= trackFlag
	}
''', '''	for i := range tracked {
		mbuf[tracked[i]] |= trackFlag
	}
'''))
r('mrg-rollback', (M, '''		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
		forgetOffsets(m.strTable, lastElementOffset-m.bodyOffset)
		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
		return 0, err
''', '''		m.rollback(lastElementOffset)
		return 0, err
'''), (M, '// Finish is called', '''// rollback removes everything appended after size
func (m *Merger) rollback(size int) {
	m.buf = m.buf[:size]
	first := size - m.bodyOffset
	for _, table := range []map[mergerStr]int{m.strTable, m.objTable} {
		forgetOffsets(table, first)
	}
}

// Finish is called'''))
r('mrg-forget-inline', (M, '''		forgetOffsets(m.strTable, lastElementOffset-m.bodyOffset)
		forgetOffsets(m.objTable, lastElementOffset-m.bodyOffset)
''', '''		for str, offset := range m.strTable {
			if offset < lastElementOffset-m.bodyOffset {
				continue
			}
			delete(m.strTable, str)
		}
		for str, offset := range m.objTable {
			if offset+m.bodyOffset >= lastElementOffset {
				delete(m.objTable, str)
			}
		}
'''), (M, '''// forgetOffsets removes from the table everything found at offset first or after it
func forgetOffsets(table map[mergerStr]int, first int) {
	for str, offset := range table {
		if offset >= first {
			delete(table, str)
		}
	}
}
''', ''))
r('mrg-hash-push', (M, '''			if tag == typeHASH {
				stack = append(stack, uint64(ln*2)|hashKeysValuesFlag)
			} else {
				stack = append(stack, uint64(ln))
			}
''', '''			expected := uint64(ln)
			if tag == typeHASH {
				// keys and values
				expected = expected<<1 | hashKeysValuesFlag
			}
			stack = append(stack, expected)
'''))
r('mrg-finish-early', (M, '''	if !m.finished {
		binary.PutUvarint(''', '''	if m.finished {
		return m.buf, nil
	}

	{
		binary.PutUvarint('''))
r('mrg-finish-doctype', (M, '''			var doctype documentType

			switch comp := m.Compression.(type) {
			case SnappyCompressor:
				if !comp.Incremental {
					return nil, errors.New("non-incremental snappy compression is not supported")
				}

				doctype = serealSnappyIncremental

			case ZlibCompressor:
				if m.version < 3 {
					return nil, errors.New("zlib compression only valid for v3 documents and up")
				}

				doctype = serealZlib

			default:
				return nil, errors.New("unknown compressor")
			}
''', '''			doctype, err := m.compressedType()
			if err != nil {
				return nil, err
			}
'''), (M, 'func (m *Merger) buildTrackTable(', '''// compressedType is the document type of the configured compressor
func (m *Merger) compressedType() (documentType, error) {
	switch comp := m.Compression.(type) {
	case SnappyCompressor:
		if comp.Incremental {
			return serealSnappyIncremental, nil
		}
		return 0, errors.New("non-incremental snappy compression is not supported")
	case ZlibCompressor:
		if m.version >= 3 {
			return serealZlib, nil
		}
		return 0, errors.New("zlib compression only valid for v3 documents and up")
	}
	return 0, errors.New("unknown compressor")
}

func (m *Merger) buildTrackTable('''))
r('mrg-expected-early', (M, '''	if m.KeepFlat {
		tag0 := b[0] &^ trackFlag

		switch m.TopLevelElement {
		case TopLevelArray:
			if tag0 == typeARRAY {
				ln, sz, err := varintdecode(b[1:])
				return ln, sz + 1, err
			}

		case TopLevelArrayRef:
			if tag0 == typeREFN && len(b) > 1 && b[1]&^trackFlag == typeARRAY {
				ln, sz, err := varintdecode(b[2:])
				return ln, sz + 2, err
			} else if tag0 >= typeARRAYREF_0 && tag0 < typeARRAYREF_0+16 {
				return int(tag0 & 0xF), 1, nil
			}
		}
	}

	return 1, 0, nil // by default expect only one element
''', '''	if !m.KeepFlat {
		return 1, 0, nil
	}

	skip := 0 // tags in front of the length
	switch tag0 := b[0] &^ trackFlag; {
	case m.TopLevelElement == TopLevelArray && tag0 == typeARRAY:
		skip = 1
	case m.TopLevelElement != TopLevelArrayRef:
	case tag0 == typeREFN && len(b) > 1 && b[1]&^trackFlag == typeARRAY:
		skip = 2
	case tag0&^0xF == typeARRAYREF_0:
		return int(tag0 & 0xF), 1, nil
	}

	if skip == 0 {
		return 1, 0, nil // by default expect only one element
	}

	ln, sz, err := varintdecode(b[skip:])
	return ln, sz + skip, err
'''))
r('mrg-init-pads', (M, '''	for i := 0; i < binary.MaxVarintLen32; i++ {
		m.buf = append(m.buf, typePAD)
	}
''', '''	m.buf = append(m.buf, typePAD, typePAD, typePAD, typePAD, typePAD)
'''))
r('mrg-init-bytes', (M, '''	for i := 0; i < binary.MaxVarintLen32; i++ {
		m.buf = append(m.buf, typePAD)
	}
''', '''	var reserved [binary.MaxVarintLen32]byte
	for i := range reserved {
		reserved[i] = typePAD
	}
	m.buf = append(m.buf, reserved[:]...)
'''))
r('mrg-append-doc', (M, '''	docHeader, err := checkHeader(b)
	if err != nil {
		return 0, err
	}

	doc := mergerDoc{
		buf:        b[headerSize+docHeader.suffixSize:],
		version:    int(docHeader.version),
		startIdx:   0,
		bodyOffset: -1, // 1-based offsets
	}

	if docHeader.version == 1 {
		// offsets are relative to the start of the document
		doc.bodyOffset = -headerSize - docHeader.suffixSize
	}

	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
	if err != nil {
		return 0, err
	}

	if decomp != nil {
		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
			return 0, err
		}
	}
''', '''	doc, err := newMergerDoc(b)
	if err != nil {
		return 0, err
	}
'''), (M, 'm.buildTrackTable(&doc)', 'm.buildTrackTable(doc)'), (M, 'm.mergeItems(&doc)', 'm.mergeItems(doc)'), (M, '// forgetOffsets removes', '''// newMergerDoc splits the document and decompresses its body
func newMergerDoc(b []byte) (*mergerDoc, error) {
	docHeader, err := checkHeader(b)
	if err != nil {
		return nil, err
	}

	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
	if err != nil {
		return nil, err
	}

	body := b[headerSize+docHeader.suffixSize:]
	if decomp != nil {
		if body, err = decomp.decompress(nil, body); err != nil {
			return nil, err
		}
	}

	doc := &mergerDoc{buf: body, version: int(docHeader.version)}
	if doc.version == 1 {
		// offsets are relative to the start of the document
		doc.bodyOffset = -(headerSize + docHeader.suffixSize)
	} else {
		doc.bodyOffset = -1 // 1-based offsets
	}
	return doc, nil
}

// forgetOffsets removes'''))
r('mrg-track-late', (M, '''		_, trackme := doc.trackTable[docRelativeIdx]

''', '''
'''), (M, '''		if trackme {
			// if tag is tracked, remember its offset
''', '''		if _, trackme := doc.trackTable[docRelativeIdx]; trackme {
			// if tag is tracked, remember its offset
'''))
r('mrg-order', (M, '''		case tag == typeFLOAT:
			if len(dbuf)-didx < 5 {
				return ErrTruncated
			}
			mbuf = append(mbuf, dbuf[didx:didx+5]...)
			didx += 5 // 4 bytes + tag

		case tag == typeDOUBLE:
			if len(dbuf)-didx < 9 {
				return ErrTruncated
			}
			mbuf = append(mbuf, dbuf[didx:didx+9]...)
			didx += 9 // 8 bytes + tag
''', '''		case tag == typeDOUBLE:
			if didx+9 > len(dbuf) {
				return ErrTruncated
			}
			mbuf = append(mbuf, dbuf[didx:didx+9]...)
			didx += 9 // 8 bytes + tag

		case tag == typeFLOAT:
			if didx+5 > len(dbuf) {
				return ErrTruncated
			}
			mbuf = append(mbuf, dbuf[didx:didx+5]...)
			didx += 5 // 4 bytes + tag
'''))
r('mrg-dedup-helper', (M, '''			if dedupString {
				val := dbuf[didx+sz+1 : didx+length]
				if savedOffset, ok := m.strTable[mergerStr{tag == typeSTR_UTF8, string(val)}]; ok {
					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
					mrgRelativeIdx = savedOffset
				} else {
					m.strTable[mergerStr{tag == typeSTR_UTF8, string(val)}] = mrgRelativeIdx
					mbuf = append(mbuf, dbuf[didx:didx+length]...)
				}
			} else {
				mbuf = append(mbuf, dbuf[didx:didx+length]...)
			}
''', '''			saved, ok := 0, false
			if dedupString {
				key := mergerStr{tag == typeSTR_UTF8, string(dbuf[didx+sz+1 : didx+length])}
				saved, ok = m.seen(key, mrgRelativeIdx)
			}

			if ok {
				mbuf = appendTagVarint(mbuf, typeCOPY, uint(saved))
				mrgRelativeIdx = saved
			} else {
				mbuf = append(mbuf, dbuf[didx:didx+length]...)
			}
'''), (M, 'func isShallowStringish(', '''// seen looks for a string, and remembers it if it is not found
func (m *Merger) seen(key mergerStr, idx int) (int, bool) {
	if offset, ok := m.strTable[key]; ok {
		return offset, true
	}
	m.strTable[key] = idx
	return 0, false
}

func isShallowStringish('''))
r('mrg-pop-helper', (M, '''		level := len(stack) - 1
		for stack[level]&^hashKeysValuesFlag == 0 {
			stack = stack[:level]
			level--

			if level < 0 {
				break LOOP
			}
		}
''', '''		for len(stack) > 0 && stack[len(stack)-1]&^hashKeysValuesFlag == 0 {
			stack = stack[:len(stack)-1]
		}

		if len(stack) == 0 {
			break
		}
		level := len(stack) - 1
'''), (M, 'LOOP:\n', ''))
r('mrg-ref-helper', (M, '''		case tag == typeCOPY, tag == typeREFP, tag == typeALIAS,
			tag == typeOBJECTV, tag == typeOBJECTV_FREEZE:

			offset, sz, err := varintdecode(dbuf[didx+1:])
			if err != nil {
				return err
			}
			targetOffset, ok := doc.trackTable[offset]

			if !ok || targetOffset < 0 {
				return errors.New("bad target offset at COPY, ALIAS or REFP tag")
			}
''', '''		case tag == typeCOPY, tag == typeREFP, tag == typeALIAS,
			tag == typeOBJECTV, tag == typeOBJECTV_FREEZE:

			offset, sz, err := varintdecode(dbuf[didx+1:])
			if err != nil {
				return err
			}

			targetOffset, err := doc.target(offset)
			if err != nil {
				return err
			}
'''), (M, 'func isShallowStringish(', '''// target translates an offset of the document
func (doc *mergerDoc) target(offset int) (int, error) {
	translated, ok := doc.trackTable[offset]
	if ok && translated >= 0 {
		return translated, nil
	}
	return 0, errors.New("bad target offset at COPY, ALIAS or REFP tag")
}

func isShallowStringish('''))
r('mrg-append-named', (M, '''	if err := m.mergeItems(&doc); err != nil {
		m.buf''', '''	err = m.mergeItems(&doc)
	if err == nil {
		return m.length - oldLength, nil
	}

	{
		m.buf'''), (M, '''		return 0, err
	}

	return m.length - oldLength, nil
}
''', '''		return 0, err
	}
}
'''))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-k', default='')
    ap.add_argument('-c', default='')
    ap.add_argument('-t', action='store_true')
    ap.add_argument('-o', default='', help='apply -k NAME to this directory and stop')
    ap.add_argument('-j', type=int, default=3)
    a = ap.parse_args()
    checks = a.c.split(',') if a.c else [c['property_id'] if 'property_id' in c else c.get('property') or c.get('id') for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    an = os.environ.get('SRL_AN', '/tmp/an')
    from concurrent.futures import ThreadPoolExecutor
    def one(name):
        d = tempfile.mkdtemp(prefix='refac-')
        try:
            shutil.copytree('/repo/Go', d + '/Go', symlinks=True)
            shutil.copy('/repo/sereal_spec.pod', d)
            for e in R[name]:
                p = d + '/Go/sereal/' + e[0]
                s = open(p).read()
                if e[1] not in s:
                    return name, ['NO MATCH: ' + e[1][:80]]
                s = s.replace(e[1], e[2]) if len(e) > 3 else s.replace(e[1], e[2], 1)
                open(p, 'w').write(s)
            b = subprocess.run(['go', 'vet', '.'], cwd=d + '/Go/sereal', capture_output=True, text=True)
            if b.returncode:
                return name, ['BUILD: ' + b.stderr[:400]]
            bad = []
            if a.t:
                t = subprocess.run(['go', 'test', '.'], cwd=d + '/Go/sereal', capture_output=True, text=True)
                if t.returncode:
                    bad.append('TESTS: ' + (t.stdout + t.stderr)[-300:])
            for c in checks:
                try:
                    x = subprocess.run([an, 'check', c], env=dict(os.environ, SRL_REPO=d, SRL_VERIF=d + '/v'), capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    bad.append(c + ' TIMEOUT')
                    continue
                if x.returncode:
                    ls = [l for l in x.stdout.splitlines() if l.startswith('  ')]
                    bad.append('%s exit %d %s' % (c, x.returncode, ' | '.join(l.strip()[:160] for l in ls[:2]) or x.stderr[-200:]))
            return name, bad
        finally:
            shutil.rmtree(d)
    if a.o:
        shutil.copytree('/repo/Go', a.o + '/Go', symlinks=True)
        shutil.copy('/repo/sereal_spec.pod', a.o)
        for e in R[a.k]:
            p = a.o + '/Go/sereal/' + e[0]
            s = open(p).read()
            s = s.replace(e[1], e[2]) if len(e) > 3 else s.replace(e[1], e[2], 1)
            open(p, 'w').write(s)
        return
    n = 0
    with ThreadPoolExecutor(a.j) as ex:
        for name, bad in ex.map(one, [k for k in R if a.k in k]):
            print(('ok   ' if not bad else 'BAD  ') + name, flush=True)
            for b in bad:
                print('       ' + b, flush=True)
                n += 1
    sys.exit(1 if n else 0)

main()
