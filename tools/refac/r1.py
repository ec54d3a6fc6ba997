import sys,os
R=sys.argv[1]
def ed(f,*prs):
    p=os.path.join(R,f); s=open(p).read()
    for a,b in prs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b,1)
    open(p,'w').write(s)
# --- bptree
p='pkg/bptree/bptree.go'
s=open(os.path.join(R,p)).read()
i=s.index('	// insert the key into the leaf\n'); j=s.index('type Entry struct')
s=s[:i]+'''	leaf := path[0].node
	at, exists := slices.BinarySearchFunc(leaf.Keys, key, pointer.CompareReferencedValues)
	if exists {
		return fmt.Errorf("key already exists. Data pointer: %v", key.DataPointer)
	}
	leaf.Keys = slices.Insert(leaf.Keys, at, key)
	leaf.LeafPointers = slices.Insert(leaf.LeafPointers, at, value)

	for i, tr := range path {
		if int(tr.node.Size()) <= t.PageFile.PageSize() {
			return t.overwrite(tr)
		}
		midKey, sibling, err := t.split(tr)
		if err != nil {
			return err
		}
		if i == len(path)-1 {
			return t.newRoot(midKey, tr.ptr.Offset, sibling)
		}
		parent := path[i+1]
		parent.node.Keys = slices.Insert(parent.node.Keys, parent.index, midKey)
		parent.node.InternalPointers = slices.Insert(parent.node.InternalPointers, parent.index+1, sibling)
	}
	panic("unreachable")
}

// overwrite stores the node of a traversal record at the place it came from.
func (t *BPTree) overwrite(tr TraversalRecord) error {
	if _, err := t.PageFile.Seek(int64(tr.ptr.Offset), io.SeekStart); err != nil {
		return err
	}
	_, err := tr.node.WriteTo(t.PageFile)
	return err
}

func (t *BPTree) empty() *BPTreeNode {
	return &BPTreeNode{Data: t.Data, DataParser: t.DataParser, Width: t.Width}
}

func (t *BPTree) store(n *BPTreeNode) (pointer.MemoryPointer, error) {
	buf, err := n.MarshalBinary()
	if err != nil {
		return pointer.MemoryPointer{}, err
	}
	off, err := t.PageFile.NewPage(buf)
	if err != nil {
		return pointer.MemoryPointer{}, err
	}
	return pointer.MemoryPointer{Offset: uint64(off), Length: uint32(len(buf))}, nil
}

// split moves the upper half of the node to a new page.
func (t *BPTree) split(tr TraversalRecord) (mid pointer.ReferencedValue, right uint64, err error) {
	left := tr.node
	k := len(left.Keys) >> 1
	mid = left.Keys[k]
	m := t.empty()
	isLeaf := left.Leaf()
	switch {
	case isLeaf:
		m.Keys, m.LeafPointers = slices.Clone(left.Keys[k:]), slices.Clone(left.LeafPointers[k:])
	default:
		m.Keys, m.InternalPointers = slices.Clone(left.Keys[k+1:]), slices.Clone(left.InternalPointers[k+1:])
	}
	mp, err := t.store(m)
	if err != nil {
		return mid, 0, err
	}
	left.Keys = left.Keys[:k:k]
	if isLeaf {
		left.LeafPointers = left.LeafPointers[:k:k]
	} else {
		left.InternalPointers = left.InternalPointers[: k+1 : k+1]
	}
	return mid, mp.Offset, t.overwrite(tr)
}

func (t *BPTree) newRoot(key pointer.ReferencedValue, left, right uint64) error {
	root := t.empty()
	root.Keys = append(root.Keys, key)
	root.InternalPointers = append(root.InternalPointers, left, right)
	mp, err := t.store(root)
	if err != nil {
		return err
	}
	return t.MetaPage.SetRoot(mp)
}

'''+s[j:]
i=s.index('		// special case, create the root as the first node\n'); j=s.index('	path, err := t.traverse(key, root, rootOffset)\n	if err != nil {\n		return err')
s=s[:i]+'''		first := t.empty()
		first.Keys = append(first.Keys, key)
		first.LeafPointers = append(first.LeafPointers, value)
		mp, err := t.store(first)
		if err != nil {
			return err
		}
		return t.MetaPage.SetRoot(mp)
	}

'''+s[j:]
i=s.index('	// binary search node.Keys to find the first key greater'); j=s.index('func (t *BPTree) Insert(')
s=s[:i]+'''	var path []TraversalRecord
	for {
		index := sort.Search(len(node.Keys), func(i int) bool {
			return pointer.CompareReferencedValues(node.Keys[i], key) >= 0
		})
		if node.Leaf() {
			path = append(path, TraversalRecord{node: node, index: index, ptr: ptr})
			break
		}
		if index < len(node.Keys) && pointer.CompareReferencedValues(node.Keys[index], key) == 0 {
			index++
		}
		path = append(path, TraversalRecord{node: node, index: index, ptr: ptr})
		ptr = node.Pointer(index)
		var err error
		if node, err = t.readNode(ptr); err != nil {
			return nil, err
		}
	}
	slices.Reverse(path)
	return path, nil
}

'''+s[j:]
s=s.replace('"slices"\n','"slices"\n	"sort"\n',1)
open(os.path.join(R,p),'w').write(s)
# --- node
ed('pkg/bptree/node.go',('''	buf := make([]byte, n.Size())
	// set the first bit to 1 if it's a leaf
	if n.Leaf() {
		binary.LittleEndian.PutUint32(buf[:4], uint32(-size))
	} else {
		binary.LittleEndian.PutUint32(buf[:4], uint32(size))
	}
	ct := 4
	for _, k := range n.Keys {
		on := binary.PutUvarint(buf[ct:], k.DataPointer.Offset)
		ln := binary.PutUvarint(buf[ct+on:], uint64(k.DataPointer.Length))
		ct += on + ln
		if n.Width != uint16(0) {
			m := copy(buf[ct:ct+len(k.Value)], k.Value)
			if m != len(k.Value) {
				return nil, fmt.Errorf("failed to copy key: %w", io.ErrShortWrite)
			}
			ct += m
		}
	}
	for _, p := range n.LeafPointers {
		on := binary.PutUvarint(buf[ct:], p.Offset)
		ln := binary.PutUvarint(buf[ct+on:], uint64(p.Length))

		ct += on + ln
	}
	for _, p := range n.InternalPointers {
		on := binary.PutUvarint(buf[ct:], p)
		ct += on
	}
	if ct != int(n.Size()) {
''','''	if n.Leaf() {
		size = -size
	}
	want := n.Size()
	buf := binary.LittleEndian.AppendUint32(make([]byte, 0, want), uint32(size))
	mp := func(p pointer.MemoryPointer) {
		buf = binary.AppendUvarint(buf, p.Offset)
		buf = binary.AppendUvarint(buf, uint64(p.Length))
	}
	for i := range n.Keys {
		mp(n.Keys[i].DataPointer)
		if n.Width > 0 {
			buf = append(buf, n.Keys[i].Value...)
		}
	}
	for _, p := range n.LeafPointers {
		mp(p)
	}
	for _, p := range n.InternalPointers {
		buf = binary.AppendUvarint(buf, p)
	}
	if int64(len(buf)) != want {
'''),('	"fmt"\n',''))
# --- pagefile
ed('pkg/pagefile/pagefile.go',('''	for i := range pf.freePageIndexes {
		if pf.freePageIndexes[i] == offset {
			return errors.New("offset already exists")
		}
	}
''','''	if slices.Contains(pf.freePageIndexes[:], offset) {
		return errors.New("offset already exists")
	}
'''),('''	buf := make([]byte, len(pf.freePageIndexes)*8)
	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
	for i := 0; i < pf.freePageCount; i++ {
		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
	}
''','''	ring := len(pf.freePageIndexes)
	buf := make([]byte, 0, ring*8)
	for i, at := 0, pf.tail(); i < pf.freePageCount; i++ {
		buf = binary.LittleEndian.AppendUint64(buf, uint64(pf.freePageIndexes[at]))
		if at++; at == ring {
			at = 0
		}
	}
	buf = append(buf, make([]byte, ring*8-len(buf))...)
'''),('''	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
	offset :=''','''	tail := pf.tail()
	offset :='''),('''func (pf *PageFile) FreePageIndex()''','''func (pf *PageFile) tail() int {
	t := pf.freePageHead - pf.freePageCount
	if t < 0 {
		t += len(pf.freePageIndexes)
	}
	return t
}

func (pf *PageFile) FreePageIndex()'''),('	"io"\n','	"io"\n	"slices"\n'),
('''		for i := 0; i < len(pf.freePageIndexes); i++ {
			offset := int64(binary.LittleEndian.Uint64(buf[i*8 : (i+1)*8]))
			if offset != 0 {
				pf.freePageIndexes[pf.freePageHead] = offset
				pf.freePageHead = (pf.freePageHead + 1) % len(pf.freePageIndexes)
				pf.freePageCount++
			} else {
				break
			}
		}
''','''		for rest := buf; len(rest) >= 8; rest = rest[8:] {
			offset := int64(binary.LittleEndian.Uint64(rest))
			if offset == 0 {
				break
			}
			pf.freePageIndexes[pf.freePageCount] = offset
			pf.freePageCount++
		}
		pf.freePageHead = pf.freePageCount % len(pf.freePageIndexes)
'''))
# --- linkedpage
ed('pkg/linkedpage/linkedpage.go',('''	if _, err := m.rws.Seek(int64(m.offset), io.SeekStart); err != nil {
		return 0, err
	}
	var next uint64
	return next, binary.Read(m.rws, binary.LittleEndian, &next)
''','''	var next uint64
	err := m.readAt(int64(m.offset), &next)
	return next, err
'''),('''	if _, err := m.rws.Seek(int64(m.offset)+int64(pointerBytes), io.SeekStart); err != nil {
		return 0, err
	}
	var count uint8
	return count, binary.Read(m.rws, binary.LittleEndian, &count)
}
''','''	var b [1]byte
	err := m.readAt(int64(m.offset)+int64(pointerBytes), b[:])
	return b[0], err
}

func (m *LinkedPage) readAt(off int64, v any) error {
	if _, err := m.rws.Seek(off, io.SeekStart); err != nil {
		return err
	}
	return binary.Read(m.rws, binary.LittleEndian, v)
}
'''),('''	var pages []*LinkedPage
	node := m
	for {
		if node.index != ^uint8(0) {
			pages = append(pages, node)
		}
		next, err := node.Next()
		if err != nil {
			if err == io.EOF {
				return pages, nil
			}
			return nil, err
		}
		node = next
	}
''','''	var pages []*LinkedPage
	var err error
	for node := m; err == nil; node, err = node.Next() {
		if node.index != ^uint8(0) {
			pages = append(pages, node)
		}
	}
	if errors.Is(err, io.EOF) {
		return pages, nil
	}
	return nil, err
'''))
