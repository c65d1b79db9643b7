package atomic

import "unsafe"

func sw(p unsafe.Pointer) { sy(p, true, true) }

func AndInt32(p *int32, m int32) int32         { sw(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func (x *Int32) And(m int32) int32             { return AndInt32(&x.v, m) }
func OrInt32(p *int32, m int32) int32          { sw(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func (x *Int32) Or(m int32) int32              { return OrInt32(&x.v, m) }
func AndInt64(p *int64, m int64) int64         { sw(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func (x *Int64) And(m int64) int64             { return AndInt64(&x.v, m) }
func OrInt64(p *int64, m int64) int64          { sw(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func (x *Int64) Or(m int64) int64              { return OrInt64(&x.v, m) }
func AndUint32(p *uint32, m uint32) uint32     { sw(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func (x *Uint32) And(m uint32) uint32          { return AndUint32(&x.v, m) }
func OrUint32(p *uint32, m uint32) uint32      { sw(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func (x *Uint32) Or(m uint32) uint32           { return OrUint32(&x.v, m) }
func AndUint64(p *uint64, m uint64) uint64     { sw(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func (x *Uint64) And(m uint64) uint64          { return AndUint64(&x.v, m) }
func OrUint64(p *uint64, m uint64) uint64      { sw(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func (x *Uint64) Or(m uint64) uint64           { return OrUint64(&x.v, m) }
func AndUintptr(p *uintptr, m uintptr) uintptr { sw(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func (x *Uintptr) And(m uintptr) uintptr       { return AndUintptr(&x.v, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { sw(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr        { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sy(unsafe.Pointer(p), true, false); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sy(unsafe.Pointer(p), false, true); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sw(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sw(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
