import sys,os
R=sys.argv[1]
def rd(f): return open(os.path.join(R,f)).read()
def wr(f,s): open(os.path.join(R,f),'w').write(s)
def ed(f,*prs):
    s=rd(f)
    for a,b in prs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b,1)
    wr(f,s)
# jsonl
f='pkg/handlers/jsonl.go'
s=rd(f)
i=s.index('		i := bytes.IndexByte(df[metadata.ReadOffset:], \'\\n\')'); j=s.index('		// check the whole line before')
s=s[:i]+'''		line, _, found := bytes.Cut(df[metadata.ReadOffset:], []byte("\\n"))
		if !found {
			return nil
		}
		i := len(line)

'''+s[j:]
i=s.index('func jsonTypeToFieldType'); 
j=s.index('func (j JSONLHandler) Parse')
s=s[:i]+'''var delimTypes = map[json.Delim]appendable.FieldType{
	'{': appendable.FieldTypeObject,
	'[': appendable.FieldTypeArray,
}

func jsonTypeToFieldType(t json.Token) []appendable.FieldType {
	one := func(ft appendable.FieldType) []appendable.FieldType { return append(make([]appendable.FieldType, 0, 4), ft) }
	if t == nil {
		return one(appendable.FieldTypeNull)
	}
	switch t := t.(type) {
	case json.Delim:
		if ft, ok := delimTypes[t]; ok {
			return one(ft)
		}
	case json.Number, float64:
		return one(appendable.FieldTypeFloat64)
	case string:
		return one(appendable.FieldTypeString)
	case bool:
		return one(appendable.FieldTypeBoolean)
	}
	panic(fmt.Sprintf("unexpected token '%v'", t))
}

func encodeFloat(f float64) []byte {
	return binary.BigEndian.AppendUint64(make([]byte, 0, 8), math.Float64bits(f))
}

func encodeBool(b bool) []byte {
	if b {
		return []byte{1}
	}
	return []byte{0}
}

func (j JSONLHandler) insert(page *linkedpage.LinkedPage, r []byte, width uint16, dp pointer.MemoryPointer, value []byte, data pointer.MemoryPointer) error {
	tree := page.BPTree(&bptree.BPTree{Data: r, DataParser: j, Width: width})
	if err := tree.Insert(pointer.ReferencedValue{DataPointer: dp, Value: value}, data); err != nil {
		return fmt.Errorf("failed to insert into b+tree: %w", err)
	}
	return nil
}

'''+s[j:]
i=s.index('	case json.Number, float64:\n		buf := make([]byte, 8)'); j=s.index('	case json.Delim:\n		panic("unexpected delimiter')
s=s[:i]+'''	case json.Number:
		f, err := token.Float64()
		if err != nil {
			slog.Error("failed to parse float", "err", err)
			return nil
		}
		return encodeFloat(f)
	case float64:
		return encodeFloat(token)
	case bool:
		return encodeBool(token)
'''+s[j:]
i=s.index('				switch ft {\n				case appendable.FieldTypeString:'); j=s.index('				default:\n					return fmt.Errorf("unrecognized type')
s=s[:i]+'''				switch ft {
				case appendable.FieldTypeString:
					valueStr, ok := value.(string)
					if !ok {
						return fmt.Errorf("expected string")
					}
					if err := j.insert(page, r, width, mp, []byte(valueStr), data); err != nil {
						return err
					}
					meta.TotalFieldValueLength += uint64(mp.Length)
				case appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram:
					valueStr, ok := value.(string)
					if !ok {
						return fmt.Errorf("expected string")
					}
					var total uint64
					for _, gram := range ngram.BuildNgram(valueStr, int(width)-1) {
						at := pointer.MemoryPointer{Offset: mp.Offset + gram.Offset, Length: uint32(len(valueStr))}
						if err := j.insert(page, r, width, at, []byte(gram.Word), data); err != nil {
							return err
						}
						total += uint64(gram.Length)
					}
					meta.TotalFieldValueLength += total
				case appendable.FieldTypeNull:
					if err := j.insert(page, r, width, mp, []byte{}, data); err != nil {
						return fmt.Errorf("%w\\nmp: %v", err, data.Offset)
					}
				case appendable.FieldTypeFloat64, appendable.FieldTypeUint64, appendable.FieldTypeInt64:
					var number float64
					switch value := value.(type) {
					case json.Number:
						if number, err = value.Float64(); err != nil {
							return fmt.Errorf("failed to parse float: %w", err)
						}
					case float64:
						number = value
					}
					if err := j.insert(page, r, width, mp, encodeFloat(number), data); err != nil {
						return err
					}
					meta.TotalFieldValueLength += uint64(mp.Length)
				case appendable.FieldTypeBoolean:
					valueBool, ok := value.(bool)
					if !ok {
						return fmt.Errorf("expected bool type")
					}
					if err := j.insert(page, r, width, mp, encodeBool(valueBool), data); err != nil {
						return err
					}
					meta.TotalFieldValueLength++
				case appendable.FieldTypeArray:
					if err := skipArray(dec); err != nil {
						return err
					}
				case appendable.FieldTypeObject:
					if err := j.handleJSONLObject(f, r, dec, append(path[:len(path):len(path)], key), data); err != nil {
						return fmt.Errorf("failed to handle object: %w", err)
					}
					if t, err := dec.Token(); err != nil || t != json.Delim('}') {
						return fmt.Errorf("expected '}', got '%v'", t)
					}

'''+s[j:]
a='''			for depth := 1; depth > 0; {
				t, err := dec.Token()
				if err != nil {
					return fmt.Errorf("failed to read token: %w", err)
				}
				switch t {
				case json.Delim('['):
					depth++
				case json.Delim(']'):
					depth--
				}
			}
'''
assert a in s
s=s.replace(a,'''			if err := skipArray(dec); err != nil {
				return err
			}
''')
s+='''
func skipArray(dec *json.Decoder) error {
	t, err := dec.Token()
	for ; err == nil; t, err = dec.Token() {
		d, isDelim := t.(json.Delim)
		if !isDelim {
			continue
		}
		if d == ']' {
			return nil
		}
		if d == '[' {
			if err := skipArray(dec); err != nil {
				return err
			}
		}
	}
	return fmt.Errorf("failed to read token: %w", err)
}
'''
a='''				buf, err := meta.MarshalBinary()
				if err != nil {
					return err
				}
				if err := page.SetMetadata(buf); err != nil {
					return err
				}
'''
assert a in s
s=s.replace(a,'''				if err := page.MarshalMetadata(meta); err != nil {
					return err
				}
''')
s=s.replace('	"github.com/kevmo314/appendable/pkg/ngram"\n','	"github.com/kevmo314/appendable/pkg/linkedpage"\n	"github.com/kevmo314/appendable/pkg/ngram"\n')
wr(f,s)
# csv
ed('pkg/handlers/csv.go',
('''	for fieldIndex, fieldValue := range record {
		fieldName := headers[fieldIndex]
''','''	prefix := strings.Join(path, ".")
	if len(path) > 0 {
		prefix += "."
	}
	for fieldIndex := 0; fieldIndex < len(record); fieldIndex++ {
		fieldValue := record[fieldIndex]
'''),
('''		name := strings.Join(append(path, fieldName), ".")
''','''		name := fmt.Sprintf("%s%s", prefix, headers[fieldIndex])
'''),
('''		fieldLength := uint32(len(fieldValue))
		if quotes := strings.Count(fieldValue, "\\""); quotes > 0 {
			fieldLength += uint32(quotes) + 2
		} else if''','''		fieldLength := uint32(len(fieldValue))
		if strings.ContainsRune(fieldValue, '"') {
			fieldLength = uint32(len(strings.ReplaceAll(fieldValue, `"`, `""`)) + len(`""`))
		} else if'''),
('''	if i, err := strconv.Atoi(fieldValue); err == nil {

		return float64(i), appendable.FieldTypeFloat64
	}

	if f, err := strconv.ParseFloat(fieldValue, 64); err == nil {

		return float64(f), appendable.FieldTypeFloat64
	}

	if b, err := strconv.ParseBool(fieldValue); err == nil {
		return b, appendable.FieldTypeBoolean
	}

	return fieldValue, appendable.FieldTypeString
''','''	i, err := strconv.ParseInt(fieldValue, 10, 64)
	if err == nil {
		return float64(i), appendable.FieldTypeFloat64
	}
	f, err := strconv.ParseFloat(fieldValue, 64)
	if err == nil {
		return f, appendable.FieldTypeFloat64
	}
	switch fieldValue {
	case "t", "T", "true", "True", "TRUE":
		return true, appendable.FieldTypeBoolean
	case "f", "F", "false", "False", "FALSE":
		return false, appendable.FieldTypeBoolean
	}
	return fieldValue, appendable.FieldTypeString
'''),
('''	field := string(value)
	if strings.HasPrefix(field, "\\"") {
		// only a field with escaped quotes is referred to with its quotes
		field = strings.ReplaceAll(strings.TrimSuffix(field[1:], "\\""), "\\"\\"", "\\"")
	}
''','''	if len(value) > 0 && value[0] == '"' {
		// only a field with escaped quotes is referred to with its quotes
		value = bytes.ReplaceAll(bytes.TrimSuffix(value[1:], []byte{'"'}), []byte(`""`), []byte(`"`))
	}
	field := string(value)
'''),
)
# index file
f='pkg/appendable/index_file.go'
s=rd(f)
s=s.replace('''	mp := i.tree
	for {
		next, err := mp.Next()
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return nil, nil, fmt.Errorf("failed to get next meta page: %w", err)
		}
		buf, err := next.Metadata()
		if err != nil {
			return nil, nil, fmt.Errorf("failed to read metadata: %w", err)
		}
		metadata := &IndexMeta{}
		if err := metadata.UnmarshalBinary(buf); err != nil {
			return nil, nil, fmt.Errorf("failed to unmarshal metadata: %w", err)
		}
		if metadata.FieldName == name && metadata.FieldType == fieldType {
			return next, metadata, nil
		}
		mp = next
	}
''','''	type key struct {
		name string
		ft   FieldType
	}
	want := key{name, fieldType}
	var found *linkedpage.LinkedPage
	var foundMeta *IndexMeta
	mp, err := i.each(func(page *linkedpage.LinkedPage, m *IndexMeta) bool {
		if (key{m.FieldName, m.FieldType}) == want {
			found, foundMeta = page, m
			return false
		}
		return true
	})
	if err != nil {
		return nil, nil, err
	}
	if found != nil {
		return found, foundMeta, nil
	}
''')
i=s.index('	var fieldNames []string\n'); j=s.index('// CheckFieldName returns')
s=s[:i]+'''	var fieldNames []string
	if _, err := i.each(func(_ *linkedpage.LinkedPage, m *IndexMeta) bool {
		if !slices.Contains(fieldNames, m.FieldName) {
			fieldNames = append(fieldNames, m.FieldName)
		}
		return true
	}); err != nil {
		return nil, err
	}
	return fieldNames, nil
}

// each calls f for the indexes in order until it returns false, and returns
// the last page it has seen.
func (i *IndexFile) each(f func(*linkedpage.LinkedPage, *IndexMeta) bool) (*linkedpage.LinkedPage, error) {
	last := i.tree
	for {
		next, err := last.Next()
		switch {
		case errors.Is(err, io.EOF):
			return last, nil
		case err != nil:
			return nil, fmt.Errorf("failed to get next meta page: %w", err)
		}
		last = next
		m := new(IndexMeta)
		if err := next.UnmarshalMetadata(m); err != nil {
			return nil, fmt.Errorf("failed to read metadata: %w", err)
		}
		if !f(next, m) {
			return last, nil
		}
	}
}

'''+s[j:]
s=s.replace('''	for _, sh := range i.searchHeaders {
		if fieldName == sh {
			return true
		}
	}

	return false
''','''	return slices.Contains(i.searchHeaders, fieldName)
''').replace('	"io"\n','	"io"\n	"slices"\n',1)
wr(f,s)
f='pkg/appendable/appendable.go'
ed(f,('''	buf := make([]byte, 2+2+len(m.FieldName)+2+encoding.SizeVarint(m.TotalFieldValueLength))
	binary.LittleEndian.PutUint16(buf[0:], uint16(m.FieldType))
	binary.LittleEndian.PutUint16(buf[2:], m.Width)
	binary.LittleEndian.PutUint16(buf[4:], uint16(len(m.FieldName)))
	copy(buf[6:], m.FieldName)
	binary.PutUvarint(buf[6+len(m.FieldName):], m.TotalFieldValueLength)
	return buf, nil
''','''	var b bytes.Buffer
	for _, v := range []uint16{uint16(m.FieldType), m.Width, uint16(len(m.FieldName))} {
		b.Write(binary.LittleEndian.AppendUint16(nil, v))
	}
	b.WriteString(m.FieldName)
	b.Write(binary.AppendUvarint(nil, m.TotalFieldValueLength))
	return b.Bytes(), nil
'''),
('''	buf := make([]byte, 10+encoding.SizeVarint(m.Entries))
	buf[0] = byte(m.Version)
	buf[1] = byte(m.Format)
	binary.LittleEndian.PutUint64(buf[2:], m.ReadOffset)
	binary.PutUvarint(buf[10:], m.Entries)
	return buf, nil
''','''	head := struct {
		V, F byte
		O    uint64
	}{byte(m.Version), byte(m.Format), m.ReadOffset}
	var b bytes.Buffer
	if err := binary.Write(&b, binary.LittleEndian, head); err != nil {
		return nil, err
	}
	return binary.AppendUvarint(b.Bytes(), m.Entries), nil
'''),
('	"encoding/binary"\n','	"bytes"\n	"encoding/binary"\n'),('	"github.com/kevmo314/appendable/pkg/encoding"\n',''))
# ngram
f='pkg/ngram/tokenizer.go'
s=rd(f)
i=s.index('func BuildNgram')
s=s[:i]+'''type char struct {
	r  rune
	at int
}

func BuildNgram(phrase string, gl int) []Token {
	clean, at := normalizeToAscii(phrase)

	var chars []char
	for i, r := range []rune(clean) {
		chars = append(chars, char{r, at[i]})
	}
	var out []Token
	var word []char
	flush := func() {
		for len(word) >= gl {
			w := word[:gl]
			var b []rune
			for _, c := range w {
				b = append(b, unicode.ToLower(c.r))
			}
			out = append(out, Token{Word: string(b), Offset: uint64(w[0].at), Length: uint32(w[gl-1].at - w[0].at + 1)})
			word = word[1:]
		}
		word = nil
	}
	for _, c := range chars {
		switch {
		case unicode.IsSpace(c.r):
			flush()
		case unicode.In(c.r, unicode.Letter, unicode.Digit):
			word = append(word, c)
		}
	}
	flush()
	return out
}
'''
s=s.replace('''	ogOffsets := make(map[int]int)

	var b strings.Builder
	norm := norm.NFKD.String(s)

	additionalOffsets := 0

	newIndex := 0

	for i, r := range norm {
		if utf8.RuneLen(r) > 1 {
			additionalOffsets += utf8.RuneLen(r) - 1
		}

		if r <= unicode.MaxASCII {
			b.WriteRune(r)
			ogOffsets[newIndex] = i - additionalOffsets
			newIndex++
		}

	}
	return b.String(), ogOffsets
''','''	ogOffsets := make(map[int]int)
	var b []byte
	extra := 0
	for i, r := range norm.NFKD.String(s) {
		if r < utf8.RuneSelf {
			ogOffsets[len(b)] = i - extra
			b = utf8.AppendRune(b, r)
		} else if n := utf8.RuneLen(r); n > 1 {
			extra += n - 1
		}
	}
	return string(b), ogOffsets
''').replace('	"strings"\n','')
wr(f,s)
# hnsw
ed('pkg/hnsw/heap.go',
('''	d.Swap(i, n-1)
	d.down(i, n-1)

	return d.Pop(), nil
''','''	return d.remove(i), nil
'''),('''	n := d.Len() - 1
	d.Swap(0, n)
	d.down(0, n)
	return d.Pop(), nil
}
''','''	return d.remove(0), nil
}

func (d *DistHeap) remove(i int) *Item {
	last := d.Len() - 1
	d.Swap(i, last)
	d.down(i, last)
	return d.Pop()
}

// maxIndex is the index of the item that is furthest away
func (d *DistHeap) maxIndex() int {
	best := 0
	for c := 1; c <= 2 && c < d.Len(); c++ {
		if !d.Less(c, best) {
			best = c
		}
	}
	return best
}
'''),('''	n := d.Len()
	i := 0
	l := lchild(0)

	if l < n && !d.Less(l, i) {
		i = l
	}

	r := rchild(0)
	if r < n && !d.Less(r, i) {
		i = r
	}

''','''	i := d.maxIndex()
'''),('''	// Find the maximum element without removing it
	n := d.Len()

	i := 0
	l := lchild(0)
	if l < n && !d.Less(l, i) {
		i = l
	}

	r := rchild(0)
	if r < n && !d.Less(r, i) {
		i = r
	}

	return d.items[i], nil
''','''	return d.items[d.maxIndex()], nil
'''),('''	index, ok := d.visited[id]

	if !ok {
		d.Push(&Item{id: id, dist: dist})
		d.visited[id] = d.Len() - 1
		d.up(d.Len() - 1)
		return
	}

	d.items[index].dist = dist
	d.Fix(index)
''','''	if index, ok := d.visited[id]; ok {
		d.items[index].dist = dist
		d.Fix(index)
		return
	}

	last := d.Len()
	d.visited[id] = last
	d.Push(&Item{id, dist})
	d.up(last)
'''),('''	for i, item := range d.items {
		clone := *item
		n.items[i] = &clone
	}
	maps.Copy(n.visited, d.visited)

	return n
''','''	storage := make([]Item, len(d.items))
	for i := range storage {
		storage[i] = *d.items[i]
		n.items[i] = &storage[i]
	}
	for id, i := range d.visited {
		n.visited[id] = i
	}
	return n
'''),('	"maps"\n',''))
ed('pkg/hnsw/friends.go',('''	buf := make([]byte, (4+1)*numNeighbors)

	level0 := v.friends[0]
	copyLevel0 := level0.Clone()

	for i := 0; i < numNeighbors; i++ {
		if copyLevel0.IsEmpty() {
			// write out max values here
			continue
		}

		closestItem, err := copyLevel0.PopMinItem()
		if err != nil {
			return []byte{}, fmt.Errorf("failed to find closest item in friends: %v", err)
		}
''','''	buf := make([]byte, (4+1)*numNeighbors)

	closest := v.friends[0].Clone()

	for i := 0; i < numNeighbors && !closest.IsEmpty(); i++ {
		closestItem, err := closest.PopMinItem()
		if err != nil {
			return []byte{}, fmt.Errorf("failed to find closest item in friends: %v", err)
		}
'''),('''	for i := range p0 {
		delta := p0[i] - p1[i]
		sum += delta * delta
	}
''','''	for i, a := range p0 {
		delta := a - p1[i]
		sum = sum + delta*delta
	}
'''))
ed('pkg/hnsw/hnsw.go',('''			for neighborFriendsAtLevel.Len() > h.M {
				_, err := neighborFriendsAtLevel.PopMaxItem()
				if err != nil {
					return 0, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", level, err)
				}
			}
''','''			if err := shrink(neighborFriendsAtLevel, h.M); err != nil {
				return 0, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", level, err)
			}
'''),('''	for nearestNeighborQueueAtLevel0.Len() > numNeighborsToReturn {
		_, err := nearestNeighborQueueAtLevel0.PopMaxItem()
		if err != nil {
			return nil, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", h.entryPointId, err)
		}
	}
''','''	if err := shrink(nearestNeighborQueueAtLevel0, numNeighborsToReturn); err != nil {
		return nil, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", h.entryPointId, err)
	}
'''),('''func (h *Hnsw) isValidPoint''','''// shrink drops the furthest items until at most n are left.
func shrink(heap *DistHeap, n int) error {
	for heap.Len() > n {
		if _, err := heap.PopMaxItem(); err != nil {
			return err
		}
	}
	return nil
}

func (h *Hnsw) isValidPoint'''),('''	visited := make([]bool, len(h.friends)+1)
''','''	visited := make(map[Id]struct{}, len(h.friends)+1)
'''),('''			if !visited[ccFriendId] {
				visited[ccFriendId] = true
''','''			if _, seen := visited[ccFriendId]; !seen {
				visited[ccFriendId] = struct{}{}
'''),('''		if closestCandidate.dist > furthestFoundNN.dist {
			// all items in furthest found nn are evaluated
			break
		}
''','''		if furthestFoundNN.dist < closestCandidate.dist {
			// all items in furthest found nn are evaluated
			return foundNNToQ, nil
		}
'''),('''	nearestItems := make([]*Item, h.M)

	for i := 0; i < h.M; i++ {
		nearestItem, err := nearestNeighbors.PopMinItem()

		if err != nil {
			return nil, err
		}

		nearestItems[i] = nearestItem
	}
''','''	var nearestItems []*Item
	for len(nearestItems) < h.M {
		nearestItem, err := nearestNeighbors.PopMinItem()
		if err != nil {
			return nil, err
		}
		nearestItems = append(nearestItems, nearestItem)
	}
'''))
# btree
f='pkg/btree/btree.go'
ed(f,('''	if j == len(n.Ids) {
		n.Ids = append(n.Ids, key)
		n.Vectors = append(n.Vectors, vector)
	} else {
		n.Ids = append(n.Ids[:j+1], n.Ids[j:]...)
		n.Ids[j] = key
		n.Vectors = append(n.Vectors[:j+1], n.Vectors[j:]...)
		n.Vectors[j] = vector
	}
''','''	n.Ids = slices.Insert(n.Ids, j, key)
	n.Vectors = slices.Insert(n.Vectors, j, vector)
'''),('''				if p.index == len(p.node.Ids) {
					p.node.Ids = append(p.node.Ids, midKey)
					p.node.Vectors = append(p.node.Vectors, midVector)
				} else {
					p.node.Ids = append(p.node.Ids[:p.index+1], p.node.Ids[p.index:]...)
					p.node.Ids[p.index] = midKey

					p.node.Vectors = append(p.node.Vectors[:p.index+1], p.node.Vectors[p.index:]...)
					p.node.Vectors[p.index] = midVector
				}
				p.node.Offsets = append(p.node.Offsets[:p.index+1], p.node.Offsets[p.index:]...)
				p.node.Offsets[p.index] = noffset
				p.node.Offsets[p.index+1] = uint64(moffset)
''','''				p.node.Ids = slices.Insert(p.node.Ids, p.index, midKey)
				p.node.Vectors = slices.Insert(p.node.Vectors, p.index, midVector)
				p.node.Offsets = slices.Insert(p.node.Offsets, p.index+1, uint64(moffset))
'''),('''			// n is the left node, m the right node
			m := &BTreeNode{Width: t.Width, VectorDim: t.VectorDim}
			if n.Leaf() {
				m.Vectors = n.Vectors[mid:]
				m.Ids = n.Ids[mid:]
			} else {
				// for non-leaf nodes, the mid key is inserted into the parent
				m.Offsets = n.Offsets[mid+1:]
				m.Ids = n.Ids[mid+1:]
				m.Vectors = n.Vectors[mid+1:]
			}
''','''			m := &BTreeNode{Width: t.Width, VectorDim: t.VectorDim}
			from := mid
			if !n.Leaf() {
				from++
				m.Offsets = slices.Clone(n.Offsets[from:])
			}
			m.Ids, m.Vectors = slices.Clone(n.Ids[from:]), slices.Clone(n.Vectors[from:])
'''))
s=rd(f)
i=s.index('func (t *BTree) traverse'); j=s.index('func (t *BTree) Insert')
s=s[:i]+'''func (t *BTree) traverse(key pointer.ReferencedId, node *BTreeNode, ptr pointer.MemoryPointer) ([]TraversalRecord, error) {
	var down []TraversalRecord
	for {
		index, found := slices.BinarySearchFunc(node.Ids, key, pointer.CompareReferencedIds)
		if found && !node.Leaf() {
			index++
		}
		down = append(down, TraversalRecord{node: node, index: index, ptr: ptr})
		if node.Leaf() {
			slices.Reverse(down)
			return down, nil
		}
		ptr = pointer.MemoryPointer{Offset: node.Offsets[index]}
		child, err := t.readNode(ptr.Offset)
		if err != nil {
			return nil, err
		}
		node = child
	}
}

'''+s[j:]
wr(f,s)
ed('pkg/btree/node.go',('''	ct := 4
	for _, k := range n.Ids {
		on := binary.PutUvarint(buf[ct:], k.DataPointer.Offset)
		ln := binary.PutUvarint(buf[ct+on:], uint64(k.DataPointer.Length))
		vn := binary.PutUvarint(buf[ct+on+ln:], uint64(k.Value))
		ct += on + ln + vn
	}

	for _, n := range n.Offsets {
		on := binary.PutUvarint(buf[ct:], n)
		ct += on
	}

	vdn := binary.PutUvarint(buf[ct:], n.VectorDim)
	ct += vdn
''','''	ct := 4
	put := func(vs ...uint64) {
		for _, v := range vs {
			ct += binary.PutUvarint(buf[ct:], v)
		}
	}
	for _, k := range n.Ids {
		put(k.DataPointer.Offset, uint64(k.DataPointer.Length), uint64(k.Value))
	}
	put(n.Offsets...)
	put(n.VectorDim)
'''))
# mmap
ed('pkg/mmap/mmap.go',('''	if off > int64(len(m.bytes)-len(b)) {
		// write the data and remap the file
		if _, err := m.file.WriteAt(b, off); err != nil {
			return 0, err
		}
		fi, err := m.file.Stat()
		if err != nil {
			return 0, err
		}
		if m.bytes == nil {
			m.bytes, err = unix.Mmap(int(m.file.Fd()), 0, int(fi.Size()), m.prot, m.flags)
			if err != nil {
				return 0, fmt.Errorf("mmap: %v", err)
			}
			return len(b), nil
		}
		remapped, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
		if err != nil {
			return 0, fmt.Errorf("mmap: %v", err)
		}
		m.bytes = remapped
		return len(b), nil
	}
	// write the data
	n := copy(m.bytes[off:], b)
	return n, nil
}
''','''	if off <= int64(len(m.bytes)-len(b)) {
		return copy(m.bytes[off:], b), nil
	}
	if _, err := m.file.WriteAt(b, off); err != nil {
		return 0, err
	}
	if err := m.remap(); err != nil {
		return 0, err
	}
	return len(b), nil
}

// remap maps the file as long as it is now.
func (m *MemoryMappedFile) remap() (err error) {
	fi, err := m.file.Stat()
	if err != nil {
		return err
	}
	fd, size := int(m.file.Fd()), int(fi.Size())
	var mapped []byte
	if m.bytes == nil {
		mapped, err = unix.Mmap(fd, 0, size, m.prot, m.flags)
	} else {
		mapped, err = mremap(m.bytes, fd, size, m.prot, m.flags)
	}
	if err != nil {
		return fmt.Errorf("mmap: %v", err)
	}
	m.bytes = mapped
	return nil
}
'''),('''	n := copy(b, m.bytes[m.seek:])
	m.seek += int64(n)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
''','''	n, err := m.ReadAt(b, m.seek)
	m.seek += int64(n)
	return n, err
'''))
