package ecore

// vmLHS stands for the collection library's linked hash set (trusted model):
// distinct elements in the order of their first insertion. pos/calls are ghosts:
// the number of the Add call that inserted each element.
type vmLHS struct {
	data  []any
	pos   []int
	calls int
}

func (s *vmLHS) idx(x any) int {
	for i, v := range s.data {
		if v == x {
			return i
		}
	}
	return -1
}

func inv_vmLHS_idx_1(s *vmLHS, x any, k_ int) bool {
	return vForall(0, k_, func(j int) bool { return s.data[j] != x })
}

func (s *vmLHS) Add(x any) {
	if s.idx(x) < 0 {
		s.data = append(append([]any{}, s.data...), x)
		s.pos = append(append([]int{}, s.pos...), s.calls)
	}
	s.calls++
}

func (s *vmLHS) Remove(x any) {
	if i := s.idx(x); i >= 0 {
		s.data = append(append([]any{}, s.data[:i]...), s.data[i+1:]...)
		s.pos = append(append([]int{}, s.pos[:i]...), s.pos[i+1:]...)
	}
}

func (s *vmLHS) Contains(x any) bool { return s.idx(x) >= 0 }
func (s *vmLHS) Size() int           { return len(s.data) }
func (s *vmLHS) Empty() bool         { return len(s.data) == 0 }
func (s *vmLHS) Values() []any       { return append([]any{}, s.data...) }
func (s *vmLHS) Each(f func(index int, value any)) {
	for i, v := range s.data {
		f(i, v)
	}
}
