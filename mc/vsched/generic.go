package vsched

import "reflect"

// Wrap returns a function that runs f in a new thread. It is used for go statements.
func Wrap[F any](f F) F {
	fv := reflect.ValueOf(f)
	t := fv.Type()
	return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		Spawn(func() {
			if t.IsVariadic() {
				fv.CallSlice(args)
			} else {
				fv.Call(args)
			}
		})
		out := make([]reflect.Value, t.NumOut())
		for i := range out {
			out[i] = reflect.Zero(t.Out(i))
		}
		return out
	}).Interface().(F)
}

// To returns the function that sends to ch.
func To[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !send(ch, v) {
			ch <- v
		}
	}
}

// Recv2 receives.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok, handled := recv(ch)
	if handled {
		t, _ := v.(T)
		return t, ok
	}
	t, ok := <-ch
	return t, ok
}

// Recv receives.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Range starts a loop over a channel.
func Range[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// Close closes.
func Close[T any](ch chan<- T) {
	closing(ch)
	close(ch)
}

// Len is len(ch).
func Len[T any](ch chan T) int {
	length(ch)
	return len(ch)
}

// SC and RC make cases of a select statement.
func SC[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase { return SelCase{Send: true, Ch: ch, Val: v} }
}

// RC makes a receiving case.
func RC[T any](ch <-chan T) SelCase { return SelCase{Ch: ch} }

// Got2 is the value received by a select statement.
func Got2[T any](ch <-chan T, s Sel) (T, bool) {
	t, _ := s.val.(T)
	return t, s.ok
}

// Got is the value received by a select statement.
func Got[T any](ch <-chan T, s Sel) T {
	t, _ := Got2(ch, s)
	return t
}
