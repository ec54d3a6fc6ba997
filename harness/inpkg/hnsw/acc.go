package hnsw

// VerifItem reads what the package keeps unexported.
func VerifItem(i *Item) (Id, float32) { return i.id, i.dist }
