package vs

// Bubble runs f on a virtual clock and returns what it panicked with.
func Bubble(f func()) (thrown interface{}) {
	defer func() {
		if r := recover(); r != nil && thrown == nil {
			thrown = r // goroutines that can never go on
		}
	}()
	synctestRun(func() {
		defer func() { thrown = recover() }()
		f()
	})
	return
}
