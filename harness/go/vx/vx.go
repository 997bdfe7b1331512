// Package vx looks into the repository's vector structures by reflection, so
// that what is private can be read but its layout is not relied on.
package vx

import (
	"math"
	"reflect"

	"github.com/kevmo314/appendable/pkg/hnsw"
)

// Item is the identifier and distance of a heap item: its unsigned and its
// floating-point field.
func Item(it *hnsw.Item) (id uint, dist float32) {
	v := reflect.ValueOf(it).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i); f.Kind() {
		case reflect.Uint, reflect.Uint64, reflect.Uint32:
			id = uint(f.Uint())
		case reflect.Float32, reflect.Float64:
			dist = float32(f.Float())
		}
	}
	return
}

type Pair struct {
	Id   uint
	Dist float32
}

// Drain takes everything out of a copy of the heap, nearest first.
func Drain(d *hnsw.DistHeap) ([]Pair, error) {
	c := d.Clone()
	var out []Pair
	for !c.IsEmpty() {
		it, err := c.PopMinItem()
		if err != nil {
			return nil, err
		}
		id, dist := Item(it)
		out = append(out, Pair{id, dist})
	}
	return out, nil
}

// Dist is the Euclidean distance, computed apart from the repository's code.
func Dist(a, b hnsw.Point) float64 {
	var s float64
	for i := range a {
		d := float64(a[i]) - float64(b[i])
		s += d * d
	}
	return math.Sqrt(s)
}

func Close(got float32, want float64) bool {
	return math.Abs(float64(got)-want) <= 1e-4*(1+want)
}
