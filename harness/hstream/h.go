// Package hstream drives every exported operation of xstream once, on
// arbitrary inputs. It is only ever analysed, never run.
package hstream

import (
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/zzverif/vf"
)

func out(s *xstream.Stream) { vf.Out(s.Chan()) }

// --- constructors ---

func Empty()                        { out(xstream.Empty()) }
func Range(src chan interface{})    { out(xstream.Range(src)) }
func Of(items []interface{})        { out(xstream.Of(items...)) }
func From(gen xstream.GenerateFunc) { out(xstream.From(gen)) }
func Concat(a chan interface{}, others []*xstream.Stream) {
	out(xstream.Concat(xstream.Range(a), others...))
}

// --- stages ---

func ConcatM(a chan interface{}, others []*xstream.Stream) {
	out(xstream.Range(a).Concat(others...))
}
func Distinct(src chan interface{}, key xstream.KeyFunc) { out(xstream.Range(src).Distinct(key)) }
func Buffer(src chan interface{}, n int)                 { out(xstream.Range(src).Buffer(n)) }
func Split(src chan interface{}, n int)                  { out(xstream.Range(src).Split(n)) }
func SplitSteam(src chan interface{}, n int)             { out(xstream.Range(src).SplitSteam(n)) }
func Sort(src chan interface{}, less xstream.LessFunc)   { out(xstream.Range(src).Sort(less)) }
func Tail(src chan interface{}, n int)                   { out(xstream.Range(src).Tail(n)) }
func TailGiven(src chan interface{})                     { out(xstream.Range(src).Tail(vf.Given(0))) }
func Skip(src chan interface{}, n int)                   { out(xstream.Range(src).Skip(n)) }
func Limit(src chan interface{}, n int)                  { out(xstream.Range(src).Limit(n)) }
func Filter(src chan interface{}, fn xstream.FilterFunc, work int) {
	out(xstream.Range(src).Filter(fn, xstream.WithWorkSize(work)))
}
func FilterDefault(src chan interface{}, fn xstream.FilterFunc) { out(xstream.Range(src).Filter(fn)) }
func Walk(src chan interface{}, walk xstream.WalkFunc, work int) {
	out(xstream.Range(src).Walk(walk, xstream.WithWorkSize(work)))
}
func WalkDefault(src chan interface{}, walk xstream.WalkFunc) { out(xstream.Range(src).Walk(walk)) }
func WalkOptions(src chan interface{}, walk xstream.WalkFunc, o *xstream.Options) {
	out(xstream.Range(src).Walk(walk, xstream.WithOption(o)))
}
func Map(src chan interface{}, fn xstream.MapFunc, work int) {
	out(xstream.Range(src).Map(fn, xstream.WithWorkSize(work)))
}
func FlatMap(src chan interface{}, fn xstream.MapFunc, work int) {
	out(xstream.Range(src).FlatMap(fn, xstream.WithWorkSize(work)))
}
func Group(src chan interface{}, key xstream.KeyFunc) { out(xstream.Range(src).Group(key)) }
func Merge(src chan interface{})                      { out(xstream.Range(src).Merge()) }
func Reverse(src chan interface{})                    { out(xstream.Range(src).Reverse()) }
func Peek(src chan interface{}, each xstream.ForEachFunc) {
	out(xstream.Range(src).Peek(each))
}
func Copy(src chan interface{}, params map[string]int) {
	m := xstream.Range(src).Copy(params)
	vf.Mark("copies", m)
}
func Chan(src chan interface{}) { vf.Out(xstream.Range(src).Chan()) }

// --- terminals ---

func Count(src chan interface{}) { vf.Mark("count", xstream.Range(src).Count()) }
func Done(src chan interface{})  { xstream.Range(src).Done() }
func Foreach(src chan interface{}, each xstream.ForEachFunc) {
	xstream.Range(src).Foreach(each)
}
func ForeachOrdered(src chan interface{}, each xstream.ForEachFunc) {
	xstream.Range(src).ForeachOrdered(each)
}
func ParallelFinish(src chan interface{}, each xstream.ParallelFunc, work int) {
	xstream.Range(src).ParallelFinish(each, xstream.WithWorkSize(work))
}
func AnyMach(src chan interface{}, pred func(item interface{}) bool) {
	vf.Mark("any", xstream.Range(src).AnyMach(pred))
}
func AllMach(src chan interface{}, pred func(item interface{}) bool) {
	vf.Mark("all", xstream.Range(src).AllMach(pred))
}
func FindFirst(src chan interface{}) {
	v, err := xstream.Range(src).FindFirst()
	vf.Mark("first", v, err, xstream.ErrNoElement)
}
func FindLast(src chan interface{}) {
	v, err := xstream.Range(src).FindLast()
	vf.Mark("last", v, err, xstream.ErrNoElement)
}
func Collection(src chan interface{}, collect xstream.CollectorFunc) {
	xstream.Range(src).Collection(collect)
}
func GroupBy(src chan interface{}, key xstream.KeyFunc) {
	g := xstream.GroupBy(key)
	xstream.Range(src).Collection(g)
	vf.Mark("groups", g.Map())
	g.Map()
}
