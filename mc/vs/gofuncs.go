package vs

// GoPRk starts a function with P parameters and k results; the parameters are
// evaluated by the caller.

func Go0R0(fn func()) func() {
	return func() { Go(func() { fn() }) }
}

func Go0R1[R0 any](fn func() R0) func() {
	return func() { Go(func() { fn() }) }
}

func Go0R2[R0, R1 any](fn func() (R0, R1)) func() {
	return func() { Go(func() { fn() }) }
}

func Go0R3[R0, R1, R2 any](fn func() (R0, R1, R2)) func() {
	return func() { Go(func() { fn() }) }
}

func Go1R0[A any](fn func(A)) func(A) {
	return func(a A) { Go(func() { fn(a) }) }
}

func Go1R1[A, R0 any](fn func(A) R0) func(A) {
	return func(a A) { Go(func() { fn(a) }) }
}

func Go1R2[A, R0, R1 any](fn func(A) (R0, R1)) func(A) {
	return func(a A) { Go(func() { fn(a) }) }
}

func Go1R3[A, R0, R1, R2 any](fn func(A) (R0, R1, R2)) func(A) {
	return func(a A) { Go(func() { fn(a) }) }
}

func Go2R0[A, B any](fn func(A, B)) func(A, B) {
	return func(a A, b B) { Go(func() { fn(a, b) }) }
}

func Go2R1[A, B, R0 any](fn func(A, B) R0) func(A, B) {
	return func(a A, b B) { Go(func() { fn(a, b) }) }
}

func Go2R2[A, B, R0, R1 any](fn func(A, B) (R0, R1)) func(A, B) {
	return func(a A, b B) { Go(func() { fn(a, b) }) }
}

func Go2R3[A, B, R0, R1, R2 any](fn func(A, B) (R0, R1, R2)) func(A, B) {
	return func(a A, b B) { Go(func() { fn(a, b) }) }
}

func Go3R0[A, B, C any](fn func(A, B, C)) func(A, B, C) {
	return func(a A, b B, c C) { Go(func() { fn(a, b, c) }) }
}

func Go3R1[A, B, C, R0 any](fn func(A, B, C) R0) func(A, B, C) {
	return func(a A, b B, c C) { Go(func() { fn(a, b, c) }) }
}

func Go3R2[A, B, C, R0, R1 any](fn func(A, B, C) (R0, R1)) func(A, B, C) {
	return func(a A, b B, c C) { Go(func() { fn(a, b, c) }) }
}

func Go3R3[A, B, C, R0, R1, R2 any](fn func(A, B, C) (R0, R1, R2)) func(A, B, C) {
	return func(a A, b B, c C) { Go(func() { fn(a, b, c) }) }
}

func Go4R0[A, B, C, D any](fn func(A, B, C, D)) func(A, B, C, D) {
	return func(a A, b B, c C, d D) { Go(func() { fn(a, b, c, d) }) }
}

func Go4R1[A, B, C, D, R0 any](fn func(A, B, C, D) R0) func(A, B, C, D) {
	return func(a A, b B, c C, d D) { Go(func() { fn(a, b, c, d) }) }
}

func Go4R2[A, B, C, D, R0, R1 any](fn func(A, B, C, D) (R0, R1)) func(A, B, C, D) {
	return func(a A, b B, c C, d D) { Go(func() { fn(a, b, c, d) }) }
}

func Go4R3[A, B, C, D, R0, R1, R2 any](fn func(A, B, C, D) (R0, R1, R2)) func(A, B, C, D) {
	return func(a A, b B, c C, d D) { Go(func() { fn(a, b, c, d) }) }
}

func Go5R0[A, B, C, D, E any](fn func(A, B, C, D, E)) func(A, B, C, D, E) {
	return func(a A, b B, c C, d D, e E) { Go(func() { fn(a, b, c, d, e) }) }
}

func Go5R1[A, B, C, D, E, R0 any](fn func(A, B, C, D, E) R0) func(A, B, C, D, E) {
	return func(a A, b B, c C, d D, e E) { Go(func() { fn(a, b, c, d, e) }) }
}

func Go5R2[A, B, C, D, E, R0, R1 any](fn func(A, B, C, D, E) (R0, R1)) func(A, B, C, D, E) {
	return func(a A, b B, c C, d D, e E) { Go(func() { fn(a, b, c, d, e) }) }
}

func Go5R3[A, B, C, D, E, R0, R1, R2 any](fn func(A, B, C, D, E) (R0, R1, R2)) func(A, B, C, D, E) {
	return func(a A, b B, c C, d D, e E) { Go(func() { fn(a, b, c, d, e) }) }
}

func Go6R0[A, B, C, D, E, F any](fn func(A, B, C, D, E, F)) func(A, B, C, D, E, F) {
	return func(a A, b B, c C, d D, e E, f F) { Go(func() { fn(a, b, c, d, e, f) }) }
}

func Go6R1[A, B, C, D, E, F, R0 any](fn func(A, B, C, D, E, F) R0) func(A, B, C, D, E, F) {
	return func(a A, b B, c C, d D, e E, f F) { Go(func() { fn(a, b, c, d, e, f) }) }
}

func Go6R2[A, B, C, D, E, F, R0, R1 any](fn func(A, B, C, D, E, F) (R0, R1)) func(A, B, C, D, E, F) {
	return func(a A, b B, c C, d D, e E, f F) { Go(func() { fn(a, b, c, d, e, f) }) }
}

func Go6R3[A, B, C, D, E, F, R0, R1, R2 any](fn func(A, B, C, D, E, F) (R0, R1, R2)) func(A, B, C, D, E, F) {
	return func(a A, b B, c C, d D, e E, f F) { Go(func() { fn(a, b, c, d, e, f) }) }
}
