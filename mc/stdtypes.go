package main

import (
	"bytes"
	"container/list"
	"database/sql"
	"errors"
	"image"
	"image/color"
	"io/fs"
	"log/slog"
	"math"
	"math/big"
	"net"
	"net/mail"
	"net/netip"
	"net/textproto"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

type stdAddr struct {
	netip.Addr
	N int
}
type stdMu struct {
	sync.Mutex
	N int
}
type stdErr struct {
	error
	X int
}
type stdTimes struct {
	T time.Time      `json:",omitempty"`
	P *time.Time     `json:",omitempty"`
	D time.Duration  `json:",string"`
	M time.Month     `json:"m,string,omitempty"`
	L *time.Location `json:"l"`
	W time.Weekday
}

// stdLeaves: types of the standard library, as they are found in real programs.
func stdLeaves() []leafT {
	u, err := url.Parse("https://u:p@example.com/a%20b?q=<1>&r=2#f")
	if err != nil {
		panic(err)
	}
	_, ipn, _ := net.ParseCIDR("10.1.2.0/24")
	tm := mustTime("2021-02-03T04:05:06.7Z")
	b := bytes.NewBufferString("buffer")
	addr := netip.MustParseAddr("::1")
	var ab atomic.Bool
	ab.Store(true)
	lst := list.New()
	lst.PushBack(1)
	re := regexp.MustCompile(`<a+>"`)
	return []leafT{
		L(*big.NewFloat(1.5), *big.NewFloat(math.Inf(1))), L(*big.NewRat(1, 3)), L(big.NewRat(-1, 3), nil), L[map[string]*big.Int](map[string]*big.Int{"x": big.NewInt(-7), "y": nil}),
		L(netip.MustParsePrefix("10.0.0.0/8")), L(netip.AddrPort{}, netip.AddrPortFrom(addr, 80)), L[map[netip.Addr]string](map[netip.Addr]string{addr: "a", netip.MustParseAddr("1.2.3.4"): "b", {}: "c"}), L(stdAddr{addr, 1}),
		L[map[time.Time]int](map[time.Time]int{tm: 1, tm.Add(time.Hour): 2}), L[map[time.Duration]int](map[time.Duration]int{time.Second: 1, -1: 2}), L[map[time.Month]string](map[time.Month]string{time.May: "<"}),
		L(*u), L(u), L(sql.NullString{String: "x", Valid: true}), L(sql.NullInt64{}), L(sql.Null[float64]{V: 1.5, Valid: true}), L(sql.RawBytes("raw")),
		L(b), L(&strings.Builder{}), L(textproto.MIMEHeader{"A": {"b", "<"}, "": nil}), L(&sync.Mutex{}), L(&stdMu{N: 1}), L(&ab), L(&atomic.Value{}), L(&atomic.Pointer[int]{}),
		L[error](errors.New("x"), nil, fs.ErrNotExist, &fs.PathError{Op: "a<", Path: "b", Err: errors.New("y")}), L(stdErr{errors.New("x"), 1}, stdErr{nil, 2}),
		L(re), L(slog.LevelWarn, slog.Level(3)), L(slog.String("k", "v")), L(time.March), L(stdTimes{T: tm, P: &tm, D: 5, M: 3, L: time.UTC}, stdTimes{}), L(reflect.Int), L(fs.ModeDir | 0o755),
		L(image.Rect(1, 2, 3, 4)), L[color.Color](color.RGBA{1, 2, 3, 255}), L(image.NewGray(image.Rect(0, 0, 2, 2))), L(lst.Front()), L(*ipn), L(net.HardwareAddr{1, 2}), L(mail.Address{Name: "é", Address: "a@b"}),
		L(jc.Color("\x1b[1m")), L(*jc.DefaultColors()), L(jc.RawValue(`{"a":1}`), jc.RawValue(nil)), L(jc.EscapeHTML), L(jc.Delim('[')), L(*jc.NewTokenizer([]byte("[1]"))),
	}
}
