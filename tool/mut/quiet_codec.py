DE="bencode/decode.go"; EN="bencode/encode.go"; MI="api/metainfo/metainfo.go"; TR="api/tracker/tracker.go"; MA="api/magnet/magnet.go"; PE="api/peer/peer.go"; BF="bitfield/bitfield.go"
ALL="C01 C02 C03 C04 C05 C08 C09 C11 C13 C14"
MUTS=[
("q-enc-a",ALL,EN,
"""	if err := e.writeByte('l'); err != nil {
		return err
	}
	for i := range v.Len() {
		if err := e.encode(v.Index(i)); err != nil {
			return err
		}
	}
	if err := e.writeByte('e'); err != nil {
		return err
	}
	e.ptrDepth--
	return nil
}
""","""	defer func() { e.ptrDepth-- }()
	if err := e.writeByte('l'); err != nil {
		return err
	}
	n := v.Len()
	for i := 0; i < n; i++ {
		if err := e.encode(v.Index(i)); err != nil {
			return err
		}
	}
	return e.writeByte('e')
}
""",
"""	for _, key := range keys {
		if emitsNothing(v.MapIndex(key)) {
			continue
		}
		if err := e.encodeString(key); err != nil {
			return err
		}
		if err := e.encode(v.MapIndex(key)); err != nil {
			return err
		}
	}
""","""	for _, key := range keys {
		value := v.MapIndex(key)
		if emitsNothing(value) {
			continue
		}
		if err := e.encodePair(key, value); err != nil {
			return err
		}
	}
""",
"""		if err := e.encodeString(reflect.ValueOf(f.key)); err != nil {
			return err
		}
		if err := e.encode(fv); err != nil {
			return err
		}
""","""		if err := e.encodePair(reflect.ValueOf(f.key), fv); err != nil {
			return err
		}
""",
"""func (e *Encoder) encodeString(v reflect.Value) error {
	s := v.String()
	if _, err := e.writeString(strconv.Itoa(len(s))); err != nil {
		return err
	}
	if err := e.writeByte(':'); err != nil {
		return err
	}
	if _, err := e.writeString(s); err != nil {
		return err
	}
	return nil
}
""","""func (e *Encoder) encodePair(key, value reflect.Value) error {
	if err := e.encodeString(key); err != nil {
		return err
	}
	return e.encode(value)
}

func (e *Encoder) encodeString(v reflect.Value) error {
	s := v.String()
	if _, err := e.writeString(strconv.Itoa(len(s)) + ":" + s); err != nil {
		return err
	}
	return nil
}
""",
"""	keys := v.MapKeys()
	slices.SortFunc(keys, func(a, b reflect.Value) int {
		return strings.Compare(a.String(), b.String())
	})
""","""	keys := make([]reflect.Value, 0, v.Len())
	for it := v.MapRange(); it.Next(); {
		keys = append(keys, it.Key())
	}
	slices.SortFunc(keys, func(a, b reflect.Value) int {
		return strings.Compare(a.String(), b.String())
	})
""",
"""	fieldCacheMu sync.Mutex
""","""	fieldCacheMu sync.RWMutex
""",
"""	fieldCacheMu.Lock()
	if fi, ok := fieldCache[t]; ok {
		fieldCacheMu.Unlock()
		return fi
	}
	fieldCacheMu.Unlock()
""","""	fieldCacheMu.RLock()
	cached, ok := fieldCache[t]
	fieldCacheMu.RUnlock()
	if ok {
		return cached
	}
""",
),
("q-enc-b",ALL,EN,
"""	fieldCacheMu sync.Mutex
	fieldCache   = make(map[reflect.Type]*fieldInfo)
""","""	fieldCache sync.Map // reflect.Type -> *fieldInfo
""",
"""	fieldCacheMu.Lock()
	if fi, ok := fieldCache[t]; ok {
		fieldCacheMu.Unlock()
		return fi
	}
	fieldCacheMu.Unlock()
""","""	if fi, ok := fieldCache.Load(t); ok {
		return fi.(*fieldInfo)
	}
""",
"""	fieldCacheMu.Lock()
	fieldCache[t] = fi
	fieldCacheMu.Unlock()
	return fi
""","""	cached, _ := fieldCache.LoadOrStore(t, fi)
	return cached.(*fieldInfo)
""",
"""	var b bytes.Buffer
	e := NewEncoder(&b)
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
""","""	b := bytes.NewBuffer(make([]byte, 0, 64))
	err := NewEncoder(b).Encode(v)
	if err != nil {
		return nil, err
	}
	return b.Bytes(), nil
""",
"""	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return e.encodeInt(v)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return e.encodeUint(v)
""","""	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return e.encodeNumber(strconv.FormatUint(v.Uint(), 10))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return e.encodeNumber(strconv.FormatInt(v.Int(), 10))
""",
"""func (e *Encoder) encodeInt(v reflect.Value) error {
	i := v.Int()
	if err := e.writeByte('i'); err != nil {
		return err
	}
	if _, err := e.writeString(strconv.FormatInt(i, 10)); err != nil {
		return err
	}
	if err := e.writeByte('e'); err != nil {
		return err
	}
	return nil
}

func (e *Encoder) encodeUint(v reflect.Value) error {
	i := v.Uint()
	if err := e.writeByte('i'); err != nil {
		return err
	}
	if _, err := e.writeString(strconv.FormatUint(i, 10)); err != nil {
		return err
	}
	if err := e.writeByte('e'); err != nil {
		return err
	}
	return nil
}
""","""func (e *Encoder) encodeNumber(digits string) error {
	for _, part := range [...]string{"i", digits, "e"} {
		if _, err := e.writeString(part); err != nil {
			return err
		}
	}
	return nil
}
""",
),
("q-dec-a",ALL,DE,
# shared sorted-key loop helper
"""		if !first && lastKey >= key.String() {
			return errors.New("decodeMap: dictionary keys not sorted")
		}
		first, lastKey = false, key.String()
		elem := reflect.New(et)
""","""		k := key.String()
		if !first && k <= lastKey {
			return errors.New("decodeMap: dictionary keys not sorted")
		}
		first = false
		lastKey = k
		elem := reflect.New(et)
""",
"""	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if err = d.UnreadByte(); err != nil {
		return err
	}
	switch b {
	case 'i':
		return d.consumeInt(buf)
""","""	b, err := d.peekByte()
	if err != nil {
		return err
	}
	switch b {
	case 'i':
		return d.consumeInt(buf)
""",
"""	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if err = d.UnreadByte(); err != nil {
		return err
	}
	var iv reflect.Value
""","""	b, err := d.peekByte()
	if err != nil {
		return err
	}
	var iv reflect.Value
""",
"""func isDigit(b byte) bool {
""","""func (d *Decoder) peekByte() (byte, error) {
	p, err := d.Peek(1)
	if err != nil {
		return 0, err
	}
	return p[0], nil
}

func isDigit(b byte) bool {
""",
"""	if length <= 4096 {
		b := make([]byte, length)
		n, err := io.ReadFull(d, b)
		return b[:n], err
	}
	var b bytes.Buffer
	_, err := io.CopyN(&b, d, int64(length))
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return b.Bytes(), err
""","""	b := make([]byte, 0, min(length, 4096))
	for len(b) < length {
		step := min(length-len(b), max(4096, len(b)))
		start := len(b)
		b = append(b, make([]byte, step)...)
		n, err := io.ReadFull(d, b[start:])
		if err != nil {
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return b[:start+n], err
		}
	}
	return b, nil
""",
"""	if len(intStr) == 0 {
		return false
	}
	if intStr[0] == '+' {
		return true
	}
	if intStr[0] == '0' {
		return len(intStr) > 1
	}
	if intStr[0] == '-' && len(intStr) >= 2 {
		return intStr[1] == '0'
	}
	return false
""","""	switch {
	case intStr == "" || intStr == "0" || intStr == "-":
		return false
	case intStr[0] == '+' || intStr[0] == '0':
		return true
	case intStr[0] == '-':
		return intStr[1] == '0'
	}
	return false
""",
"""	r := bytes.NewReader(b)
	d := NewDecoder(bufio.NewReaderSize(r, 32))
	return d.Decode(v)
""","""	return NewDecoder(bytes.NewReader(b)).Decode(v)
""",
),
("q-dec-b",ALL,DE,
"""	i := 0
	for {
		c, err := d.ReadByte()
		if err != nil {
			return err
		}
		if c == 'e' {
			break
		}
		if err := d.UnreadByte(); err != nil {
			return err
		}
		if v.Kind() == reflect.Slice {
			if i >= v.Cap() {
				if v.Len() > 0 {
					v.Grow(v.Len())
				} else {
					v.Grow(1)
				}
			}
			if i >= v.Len() {
				v.SetLen(i + 1)
				v.Index(i).SetZero() // what lay behind the end of the slice
			}
		}
		if i < v.Len() {
			// Check length for arrays. This check is guaranteed for slices.
			if err := d.decode(v.Index(i)); err != nil {
				return err
			}
		} else {
			// Toss the remainder.
			if err := d.consume(nil); err != nil {
				return err
			}
		}
		i++
	}
""","""	i := 0
	for ; ; i++ {
		more, err := d.more()
		if err != nil {
			return err
		}
		if !more {
			break
		}
		if v.Kind() == reflect.Slice {
			growTo(v, i+1)
		}
		if i >= v.Len() {
			// Toss the remainder of an array.
			if err := d.consume(nil); err != nil {
				return err
			}
			continue
		}
		if err := d.decode(v.Index(i)); err != nil {
			return err
		}
	}
""",
"""func (d *Decoder) decodeMap(v reflect.Value) error {
""","""func growTo(v reflect.Value, n int) {
	if n > v.Cap() {
		v.Grow(max(1, v.Len()))
	}
	if n > v.Len() {
		v.SetLen(n)
		v.Index(n - 1).SetZero()
	}
}

// more tells whether the list or dictionary goes on, and passes its end.
func (d *Decoder) more() (bool, error) {
	c, err := d.ReadByte()
	if err != nil {
		return false, err
	}
	if c == 'e' {
		return false, nil
	}
	return true, d.UnreadByte()
}

func (d *Decoder) decodeMap(v reflect.Value) error {
""",
"""	keyToField := getFieldsForStruct(v).keyToField
	lastKey := ""
	first := true
	for {
		c, err := d.ReadByte()
		if err != nil {
			return err
		}
		if c == 'e' {
			break
		}
		if err := d.UnreadByte(); err != nil {
			return err
		}
		key := reflect.New(stringType).Elem()
		if err := d.decodeString(key); err != nil {
			return err
		}
		if !first && lastKey >= key.String() {
			return errors.New("decodeStruct: dictionary keys not sorted")
		}
		first, lastKey = false, key.String()
		field, ok := keyToField[key.String()]
		if !ok || field.ignored {
""","""	keyToField := getFieldsForStruct(v).keyToField
	lastKey := ""
	for n := 0; ; n++ {
		more, err := d.more()
		if err != nil {
			return err
		}
		if !more {
			break
		}
		key, err := d.consumeString(nil)
		if err != nil {
			return err
		}
		if n > 0 && lastKey >= key {
			return errors.New("decodeStruct: dictionary keys not sorted")
		}
		lastKey = key
		field, ok := keyToField[key]
		if !ok || field.ignored {
""",
"""	intStr = intStr[:len(intStr)-1]
	if leadingZero(intStr) {
		return d.newSyntaxError("decodeInt: invalid int: %s", intStr)
	}
	i, err := strconv.ParseInt(intStr, 10, 64)
	if err != nil {
		return d.newSyntaxError("decodeInt: %w", err)
	}
	if v.OverflowInt(i) {
		return d.newSyntaxError("decodeInt: %d overflows %s", i, v.Type())
	}
""","""	intStr = intStr[:len(intStr)-1]
	if leadingZero(intStr) {
		return d.newSyntaxError("decodeInt: invalid int: %s", intStr)
	}
	i, err := strconv.ParseInt(intStr, 10, v.Type().Bits())
	if err != nil {
		return d.newSyntaxError("decodeInt: %w", err)
	}
""",
),
("q-dec-c",ALL,DE,
# buffering the whole value then parse: decodeInterface rewritten with a switch of helpers
"""	var iv reflect.Value
	switch b {
	case 'i':
		iv = reflect.New(intType)
	case 'l':
		iv = reflect.New(anySliceType)
	case 'd':
		iv = reflect.New(mapStringAnyType)
	default:
		if isDigit(b) {
			iv = reflect.New(stringType)
		} else {
			return d.newSyntaxError("decodeInterface: unexpected prefix: %c", b)
		}
	}
	if err := d.decode(iv.Elem()); err != nil {
		return err
	}
	v.Set(iv.Elem())
	return nil
""","""	var t reflect.Type
	switch {
	case b == 'i':
		t = intType
	case b == 'l':
		t = anySliceType
	case b == 'd':
		t = mapStringAnyType
	case isDigit(b):
		t = stringType
	default:
		return d.newSyntaxError("decodeInterface: unexpected prefix: %c", b)
	}
	iv := reflect.New(t).Elem()
	err = d.decode(iv)
	if err == nil {
		v.Set(iv)
	}
	return err
""",
"""	if !v.IsNil() && (v.Kind() != reflect.Interface || v.Elem().Kind() == reflect.Pointer && !v.Elem().IsNil()) {
		return d.decode(v.Elem())
	} else if v.NumMethod() != 0 {
""","""	if !v.IsNil() && v.Elem().Kind() == reflect.Pointer && !v.Elem().IsNil() {
		return d.decode(v.Elem())
	}
	if v.NumMethod() > 0 {
""",
"""	d.depth++
	defer func() { d.depth-- }()
	if d.depth > depthLimit {
		return errDepth
	}
	if v.Kind() == reflect.Pointer && v.IsNil() {
""","""	leave, err := d.enter()
	if err != nil {
		return err
	}
	defer leave()
	if v.Kind() == reflect.Pointer && v.IsNil() {
""",
"""func (d *Decoder) decodeUnmarshaler(v reflect.Value) error {
""","""func (d *Decoder) enter() (func(), error) {
	if d.depth >= depthLimit {
		return nil, errDepth
	}
	d.depth++
	return func() { d.depth-- }, nil
}

func (d *Decoder) decodeUnmarshaler(v reflect.Value) error {
""",
"""		buf.Write([]byte(lengthStr))
		buf.WriteByte(':')
		buf.Write(bytes)
""","""		fmt.Fprintf(buf, "%s:%s", lengthStr, bytes)
""",
"""		buf.WriteByte('i')
		buf.Write([]byte(intStr))
		buf.WriteByte('e')
""","""		buf.WriteString("i" + intStr + "e")
""",
),
("q-metainfo","C06 C07 C08 C09 C13 C14 C16",MI,
"""	if len(i.Files) > 0 {
		var sum int64
		for _, f := range i.Files {
			sum += f.Length
		}
		return sum
	}
	return i.Length
""","""	if len(i.Files) == 0 {
		return i.Length
	}
	total := int64(0)
	for n := range i.Files {
		total += i.Files[n].Length
	}
	return total
""",
"""	if index == len(i.Pieces)-1 {
		return int(i.GetLength() - int64(index)*int64(i.PieceLength))
	}
	return i.PieceLength
""","""	last := len(i.Pieces) - 1
	if index != last {
		return i.PieceLength
	}
	rest := i.GetLength()
	rest -= int64(last) * int64(i.PieceLength)
	return int(rest)
""",
"""	cpy := &info{}
	if err := bencode.Unmarshal(data, cpy); err != nil {
		return err
	}
	*i = Info(*cpy)
	i.SHA1 = sha1.Sum(data)
	return nil
""","""	var cpy info
	if err := bencode.Unmarshal(data, &cpy); err != nil {
		return err
	}
	h := sha1.New()
	h.Write(data)
	h.Sum(cpy.SHA1[:0])
	*i = Info(cpy)
	return nil
""",
"""	var res [][20]byte
	for i := 0; i < len(concat); i += 20 {
		var a [20]byte
		copy(a[:], concat[i:i+20])
		res = append(res, a)
	}
	*p = Pieces(res)
	return nil
""","""	res := make(Pieces, 0, len(concat)/20)
	for ; len(concat) > 0; concat = concat[20:] {
		res = append(res, [20]byte(concat[:20]))
	}
	*p = res
	return nil
""",
"""	var sb strings.Builder
	for _, hash := range *p {
		sb.Write(hash[:])
	}
	return bencode.Marshal(sb.String())
""","""	b := make([]byte, 0, 20*len(*p))
	for _, hash := range *p {
		b = append(b, hash[:]...)
	}
	return bencode.Marshal(b)
""",
"	\"fmt\"\n	\"strings\"\n","	\"fmt\"\n",
),
("q-tracker","C11 C12 C13 C14",TR,
"""	b := make([]byte, 6*len(peers))
	i := 0
	for _, p := range peers {
""","""	b := make([]byte, 0, 6*len(peers))
	for _, p := range peers {
""",
"""		b[i] = ip[0]
		b[i+1] = ip[1]
		b[i+2] = ip[2]
		b[i+3] = ip[3]
		binary.BigEndian.PutUint16(b[i+4:], uint16(p.Port))
		i += 6
""","""		b = append(b, ip...)
		b = binary.BigEndian.AppendUint16(b, uint16(p.Port))
""",
"""	params := make(url.Values)
	for k, v := range map[string]string{
""","""	params := make(url.Values, 16)
	for k, v := range map[string]string{
""",
"""		if v != "" {
			params.Set(k, v)
		}
""","""		if v == "" {
			continue
		}
		params[k] = []string{v}
""",
"""	switch v := v.(type) {
	case string:
		p.Compact = true
		p.List, err = parseCompactPeers(v)
	case []any:
		p.Compact = false
		p.List, err = parsePeers(v)
	default:
		return errors.New("unknown peers format")
	}
	return err
""","""	if s, ok := v.(string); ok {
		p.Compact = true
		p.List, err = parseCompactPeers(s)
		return err
	}
	l, ok := v.([]any)
	if !ok {
		return errors.New("unknown peers format")
	}
	p.Compact = false
	p.List, err = parsePeers(l)
	return err
""",
"""	for i := 0; i < len(compact); i += 6 {
		ip := net.IPv4(compact[i], compact[i+1], compact[i+2], compact[i+3])
		port := binary.BigEndian.Uint16([]byte(compact[i+4 : i+6]))
		peer := &Peer{
			IP:   ip.String(),
			Port: int(port),
		}
		peers = append(peers, peer)
	}
""","""	for ; compact != ""; compact = compact[6:] {
		peers = append(peers, &Peer{
			IP:   net.IP(compact[:4]).String(),
			Port: int(compact[4])<<8 | int(compact[5]),
		})
	}
""",
),
("q-peerapi","C10 C11 C13 C14 C24 C26",PE,
"""	n, err := w.Write(fixedData)
	if err != nil {
		return err
	}
	if n < len(fixedData) {
		panic(fmt.Sprintf("Encode: %d < %d", n, len(fixedData)))
	}
	n, err = w.Write(variableData)
	if err != nil {
		return err
	}
	if n < len(variableData) {
		panic(fmt.Sprintf("Encode: %d < %d", n, len(variableData)))
	}
	return nil
""","""	data := append(fixedData, variableData...)
	n, err := w.Write(data)
	if err != nil {
		return err
	}
	if n < len(data) {
		panic(fmt.Sprintf("Encode: %d < %d", n, len(data)))
	}
	return nil
""",
"""	payload := make([]byte, length)
	if _, err := io.ReadFull(r, payload); err != nil {
		return err
	}
	m.Type = MessageType(payload[0])
	payload = payload[1:]
""","""	var id [1]byte
	if _, err := io.ReadFull(r, id[:]); err != nil {
		return err
	}
	payload := make([]byte, length-1)
	if _, err := io.ReadFull(r, payload); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	m.Type = MessageType(id[0])
""",
"""	data := make([]byte, HandshakeLength)
	data[0] = byte(len(HandshakeProtocol))
	curr := 1
	curr += copy(data[curr:curr+len(HandshakeProtocol)], HandshakeProtocol)
	curr += copy(data[curr:curr+8], make([]byte, 8))
	curr += copy(data[curr:curr+20], h.InfoHash[:])
	curr += copy(data[curr:curr+20], h.PeerID[:])
	_, err := w.Write(data)
	return err
""","""	data := make([]byte, 0, HandshakeLength)
	data = append(data, byte(len(HandshakeProtocol)))
	data = append(data, HandshakeProtocol...)
	data = append(data, make([]byte, 8)...)
	data = append(data, h.InfoHash[:]...)
	data = append(data, h.PeerID[:]...)
	_, err := w.Write(data)
	return err
""",
),
("q-bitfield","C06 C07 C10 C15 C16 C24 C30",BF,
"""	size := n / 8
	if n%8 != 0 {
		size++
	}
	return make(Bitfield, size)
""","""	return make(Bitfield, (n+7)/8)
""",
"""	bi := i / 8
	bj := 7 - (i % 8)
	if i < 0 || bi >= len(b) {
		return false
	}
	return b[bi]&(1<<bj) != 0
""","""	if i < 0 || i >= 8*len(b) {
		return false
	}
	return b[i/8]>>(7-i%8)&1 == 1
""",
"""	for bi, mask := range b {
		for j := range 8 {
			bj := 7 - j
			if mask&(1<<bj) != 0 {
				res = append(res, bi*8+j)
			}
		}
	}
""","""	for i := 0; i < 8*len(b); i++ {
		if b.Has(i) {
			res = append(res, i)
		}
	}
""",
"""	for i := range b {
		res[i] = b[i]
		if i < len(a) {
			res[i] -= b[i] & a[i]
		}
	}
""","""	copy(res, b)
	for i := 0; i < min(len(a), len(b)); i++ {
		res[i] &^= a[i]
	}
""",
),
("q-magnet","C12 C13 C14",MA,
"""	query, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		return nil, err
	}
	ma := &Magnet{
		ExactTopic: query.Get("xt"),
		Name:       query.Get("dn"),
		Trackers:   query["tr"],
		WebSeed:    query.Get("ws"),
		Peers:      query["x.pe"],
	}
	xl := query.Get("xl")
	if xl != "" {
		if ma.Length, err = strconv.Atoi(xl); err != nil {
			return nil, err
		}
	}
	return ma, nil
""","""	query, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		return nil, err
	}
	length := 0
	if xl := query.Get("xl"); xl != "" {
		length, err = strconv.Atoi(xl)
		if err != nil {
			return nil, err
		}
	}
	return &Magnet{
		ExactTopic: query.Get("xt"),
		Name:       query.Get("dn"),
		Length:     length,
		Trackers:   query["tr"],
		WebSeed:    query.Get("ws"),
		Peers:      query["x.pe"],
	}, nil
""",
),
]
