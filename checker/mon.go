package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Mon observes and steers an exploration. Checks embed NoMon.
type Mon interface {
	Lost(c *Ctx, id int)
	Stuck(c *Ctx) bool
	Crash(c *Ctx, p *panicInfo) bool
	ThreadEnd(c *Ctx, t *Thread, p *panicInfo)
	End(c *Ctx)
	Return(c *Ctx, f *Frame, res []Val, p *panicInfo)
	Spawn(c *Ctx, t *Thread, fn Val, args []Val)
	Panic(c *Ctx, v Val)
	MakeMap(c *Ctx, id int)
	MakeChan(c *Ctx, id int)
	MakeSlice(c *Ctx, id int, n, cp Lin)
	Cond(c *Ctx, y VSym, b bool)
	Materialize(c *Ctx, v VSym, by Val)
	Load(c *Ctx, a VAddr) (Val, bool)
	Store(c *Ctx, a VAddr, v Val)
	FreshElem(c *Ctx, obj int, idx Lin) Val
	IntOp(c *Ctx, T types.Type, op string, args []Val) Val
	CmpInt(c *Ctx, op token.Token, a, b Val) Val
	BinOp(c *Ctx, op token.Token, a, b Val, T types.Type) Val
	Equal(c *Ctx, a, b Val, eq bool)
	StrByte(c *Ctx, v Val, i Lin) Val
	Convert(c *Ctx, v Val, from, to types.Type) Val
	StrToSlice(c *Ctx, v Val, id int)
	Unbox(c *Ctx, v VSym, T types.Type) Val
	MapLookup(c *Ctx, m VSym, key Val, et types.Type) (Val, bool, bool)
	FreshMapVal(c *Ctx, id int, key Val) Val
	MapUpdate(c *Ctx, id int, key, val Val, hit int)
	TrackKey(c *Ctx, id int, key, val Val) bool
	MapDelete(c *Ctx, id int, key Val, hit int)
	NextRune(c *Ctx, it int, v Val) Val
	MapNext(c *Ctx, it int, m VSym, mt *types.Map) (k, v Val, more, done bool)
	IterEnd(c *Ctx, it int)
	FullSend(c *Ctx, id int, v Val, inSelect bool) bool
	Send(c *Ctx, id int, v Val)
	RecvExt(c *Ctx, id int) (Val, bool, bool)
	Recv(c *Ctx, id int, v Val)
	SelectReady(c *Ctx, id int, dir types.ChanDir) bool
	Select(c *Ctx, in *ssa.Select, i, id int)
	Close(c *Ctx, id int)
	Callback(c *Ctx, f VSym, sig *types.Signature, args []Val) Val
	CallbackPanic(c *Ctx, f VSym)
	Recovered(c *Ctx)
	Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool)
	Invoke(c *Ctx, m VMeth, args []Val) (Val, bool)
	External(c *Ctx, fn *ssa.Function, args []Val) (Val, bool)
	MapLen(c *Ctx, m Val) Val
	WriteRange(c *Ctx, obj int, at, n Lin)
	CopyInto(c *Ctx, obj, src int, shift Lin)
	WriteElem(c *Ctx, obj int, idx Lin, v Val)
	Intrinsic(c *Ctx, name string, args []Val) Val
	Sync(c *Ctx, op string, a VAddr)
	Ext(c *Ctx, what string, args ...Val)
}

// NoMon is the monitor that does nothing.
type NoMon struct{}

func (NoMon) Lost(c *Ctx, id int)                                      {}
func (NoMon) Stuck(c *Ctx) bool                                        { return false }
func (NoMon) Crash(c *Ctx, p *panicInfo) bool                          { return false }
func (NoMon) ThreadEnd(c *Ctx, t *Thread, p *panicInfo)                {}
func (NoMon) End(c *Ctx)                                               {}
func (NoMon) Return(c *Ctx, f *Frame, res []Val, p *panicInfo)         {}
func (NoMon) Spawn(c *Ctx, t *Thread, fn Val, args []Val)              {}
func (NoMon) Panic(c *Ctx, v Val)                                      {}
func (NoMon) MakeMap(c *Ctx, id int)                                   {}
func (NoMon) MakeChan(c *Ctx, id int)                                  {}
func (NoMon) MakeSlice(c *Ctx, id int, n, cp Lin)                      {}
func (NoMon) Cond(c *Ctx, y VSym, b bool)                              {}
func (NoMon) Materialize(c *Ctx, v VSym, by Val)                       {}
func (NoMon) Load(c *Ctx, a VAddr) (Val, bool)                         { return nil, false }
func (NoMon) Store(c *Ctx, a VAddr, v Val)                             {}
func (NoMon) FreshElem(c *Ctx, obj int, idx Lin) Val                   { return nil }
func (NoMon) IntOp(c *Ctx, T types.Type, op string, args []Val) Val    { return nil }
func (NoMon) CmpInt(c *Ctx, op token.Token, a, b Val) Val              { return nil }
func (NoMon) BinOp(c *Ctx, op token.Token, a, b Val, T types.Type) Val { return nil }
func (NoMon) Equal(c *Ctx, a, b Val, eq bool)                          {}
func (NoMon) StrByte(c *Ctx, v Val, i Lin) Val                         { return nil }
func (NoMon) Convert(c *Ctx, v Val, from, to types.Type) Val           { return nil }
func (NoMon) StrToSlice(c *Ctx, v Val, id int)                         {}
func (NoMon) Unbox(c *Ctx, v VSym, T types.Type) Val                   { return nil }
func (NoMon) MapLookup(c *Ctx, m VSym, key Val, et types.Type) (Val, bool, bool) {
	return nil, false, false
}
func (NoMon) FreshMapVal(c *Ctx, id int, key Val) Val            { return nil }
func (NoMon) MapUpdate(c *Ctx, id int, key, val Val, hit int)    {}
func (NoMon) TrackKey(c *Ctx, id int, key, val Val) bool         { return false }
func (NoMon) MapDelete(c *Ctx, id int, key Val, hit int)         {}
func (NoMon) NextRune(c *Ctx, it int, v Val) Val                 { return nil }
func (NoMon) IterEnd(c *Ctx, it int)                             {}
func (NoMon) FullSend(c *Ctx, id int, v Val, inSelect bool) bool { return false }
func (NoMon) Send(c *Ctx, id int, v Val)                         {}
func (NoMon) RecvExt(c *Ctx, id int) (Val, bool, bool)           { return nil, false, false }
func (NoMon) Recv(c *Ctx, id int, v Val)                         {}
func (NoMon) Select(c *Ctx, in *ssa.Select, i, id int)           {}
func (NoMon) Close(c *Ctx, id int)                               {}
func (NoMon) CallbackPanic(c *Ctx, f VSym)                       {}
func (NoMon) Recovered(c *Ctx)                                   {}
func (NoMon) MapLen(c *Ctx, m Val) Val                           { return nil }
func (NoMon) WriteRange(c *Ctx, obj int, at, n Lin)              {}
func (NoMon) WriteElem(c *Ctx, obj int, idx Lin, v Val)          {}
func (NoMon) CopyInto(c *Ctx, obj, src int, shift Lin)           {}
func (NoMon) Intrinsic(c *Ctx, name string, args []Val) Val      { return nil }
func (NoMon) Sync(c *Ctx, op string, a VAddr)                    {}
func (NoMon) Ext(c *Ctx, what string, args ...Val)               {}
func (NoMon) MapNext(c *Ctx, it int, m VSym, mt *types.Map) (k, v Val, more, done bool) {
	return nil, nil, false, false
}
func (NoMon) SelectReady(c *Ctx, id int, dir types.ChanDir) bool { return true }
func (NoMon) Callback(c *Ctx, f VSym, sig *types.Signature, args []Val) Val {
	return nil
}
func (NoMon) Call(c *Ctx, fn *ssa.Function, args []Val) (Val, bool)     { return nil, false }
func (NoMon) Invoke(c *Ctx, m VMeth, args []Val) (Val, bool)            { return nil, false }
func (NoMon) External(c *Ctx, fn *ssa.Function, args []Val) (Val, bool) { return nil, false }
