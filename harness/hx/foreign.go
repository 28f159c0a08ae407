package hx

import "github.com/liyue201/gostl/utils/iterator"

// Foreign is an iterator of no container of the library.
type Foreign[T any] struct{}

func (f *Foreign[T]) IsValid() bool                    { return false }
func (f *Foreign[T]) Next() iterator.ConstIterator[T]  { return f }
func (f *Foreign[T]) Value() (v T)                     { return }
func (f *Foreign[T]) Clone() iterator.ConstIterator[T] { return f }
func (f *Foreign[T]) Equal(o iterator.ConstIterator[T]) bool {
	return o == iterator.ConstIterator[T](f)
}
