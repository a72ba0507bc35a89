package sim

// Buf is a byte buffer grown by hand (append is visible to the race detector).
type Buf struct {
	b []byte
	n int
}

func (b *Buf) Write(p []byte) (int, error) {
	b.grow(b.n + len(p))
	for i := 0; i < len(p); i++ {
		b.b[b.n+i] = p[i]
	}
	b.n += len(p)
	return len(p), nil
}

func (b *Buf) grow(n int) {
	if n > len(b.b) {
		m := 2*len(b.b) + 64
		if m < n {
			m = n
		}
		nb := make([]byte, m)
		for i := 0; i < b.n; i++ {
			nb[i] = b.b[i]
		}
		b.b = nb
	}
}

func (b *Buf) Bytes() []byte {
	r := make([]byte, b.n)
	for i := range r {
		r[i] = b.b[i]
	}
	return r
}

func (b *Buf) String() string { return string(b.Bytes()) }

// List is a growable list for records written by several tasks.
type List[T any] struct {
	v []T
	n int
}

//go:norace
func (l *List[T]) Add(x T) {
	if l.n == len(l.v) {
		nv := make([]T, 2*l.n+16)
		for i := 0; i < l.n; i++ {
			nv[i] = l.v[i]
		}
		l.v = nv
	}
	l.v[l.n] = x
	l.n++
}

//go:norace
func (l *List[T]) Len() int { return l.n }

//go:norace
func (l *List[T]) At(i int) T { return l.v[i] }

//go:norace
func (l *List[T]) All() []T { return l.v[:l.n:l.n] }

//go:norace
func (l *List[T]) Ptr(i int) *T {
	return &l.v[i]
}

// Len is the number of bytes written.
func (b *Buf) Len() int { return b.n }
