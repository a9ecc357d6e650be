package simrt

import "unsafe"

func sizeof[T any](z T) uintptr { return unsafe.Sizeof(z) }
