// Code generated by a script over parameter and result shapes. DO NOT EDIT.
package main

import (
	"context"
	"flychain/zzslice/rpc"
)

type all struct{}

func (all) M0R0() {
	note("M0R0")
}

func (all) M0R1() int {
	note("M0R1")
	return 42
}

func (all) M0R2() error {
	note("M0R2")
	return fail()
}

func (all) M0R3() (int, error) {
	note("M0R3")
	return 42, fail()
}

func (all) M0R4() (error, int) {
	note("M0R4")
	return fail(), 42
}

func (all) M0R5() (error, error) {
	note("M0R5")
	return fail(), fail()
}

func (all) M0R6() (int, string) {
	note("M0R6")
	return 42, "x"
}

func (all) M0R7() (int, string, error) {
	note("M0R7")
	return 42, "x", fail()
}

func (all) M0R8() (*rpc.Subscription, error) {
	note("M0R8")
	return theSub, fail()
}

func (all) M0R9() (rpc.Subscription, error) {
	note("M0R9")
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M0R10() (int, error2) {
	note("M0R10")
	return 42, fail2()
}

func (all) M0R11() (interface{}, error) {
	note("M0R11")
	return boxed, fail()
}

func (all) M0R12() (error2, int) {
	note("M0R12")
	return fail2(), 42
}

func (all) M0R13() []string {
	note("M0R13")
	return []string{"q"}
}

func (all) M0R14() error2 {
	note("M0R14")
	return fail2()
}

func (all) M1R0(ctx context.Context) {
	note("M1R0", ctx)
}

func (all) M1R1(ctx context.Context) int {
	note("M1R1", ctx)
	return 42
}

func (all) M1R2(ctx context.Context) error {
	note("M1R2", ctx)
	return fail()
}

func (all) M1R3(ctx context.Context) (int, error) {
	note("M1R3", ctx)
	return 42, fail()
}

func (all) M1R4(ctx context.Context) (error, int) {
	note("M1R4", ctx)
	return fail(), 42
}

func (all) M1R5(ctx context.Context) (error, error) {
	note("M1R5", ctx)
	return fail(), fail()
}

func (all) M1R6(ctx context.Context) (int, string) {
	note("M1R6", ctx)
	return 42, "x"
}

func (all) M1R7(ctx context.Context) (int, string, error) {
	note("M1R7", ctx)
	return 42, "x", fail()
}

func (all) M1R8(ctx context.Context) (*rpc.Subscription, error) {
	note("M1R8", ctx)
	return theSub, fail()
}

func (all) M1R9(ctx context.Context) (rpc.Subscription, error) {
	note("M1R9", ctx)
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M1R10(ctx context.Context) (int, error2) {
	note("M1R10", ctx)
	return 42, fail2()
}

func (all) M1R11(ctx context.Context) (interface{}, error) {
	note("M1R11", ctx)
	return boxed, fail()
}

func (all) M1R12(ctx context.Context) (error2, int) {
	note("M1R12", ctx)
	return fail2(), 42
}

func (all) M1R13(ctx context.Context) []string {
	note("M1R13", ctx)
	return []string{"q"}
}

func (all) M1R14(ctx context.Context) error2 {
	note("M1R14", ctx)
	return fail2()
}

func (all) M2R0(a int) {
	note("M2R0", a)
}

func (all) M2R1(a int) int {
	note("M2R1", a)
	return 42
}

func (all) M2R2(a int) error {
	note("M2R2", a)
	return fail()
}

func (all) M2R3(a int) (int, error) {
	note("M2R3", a)
	return 42, fail()
}

func (all) M2R4(a int) (error, int) {
	note("M2R4", a)
	return fail(), 42
}

func (all) M2R5(a int) (error, error) {
	note("M2R5", a)
	return fail(), fail()
}

func (all) M2R6(a int) (int, string) {
	note("M2R6", a)
	return 42, "x"
}

func (all) M2R7(a int) (int, string, error) {
	note("M2R7", a)
	return 42, "x", fail()
}

func (all) M2R8(a int) (*rpc.Subscription, error) {
	note("M2R8", a)
	return theSub, fail()
}

func (all) M2R9(a int) (rpc.Subscription, error) {
	note("M2R9", a)
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M2R10(a int) (int, error2) {
	note("M2R10", a)
	return 42, fail2()
}

func (all) M2R11(a int) (interface{}, error) {
	note("M2R11", a)
	return boxed, fail()
}

func (all) M2R12(a int) (error2, int) {
	note("M2R12", a)
	return fail2(), 42
}

func (all) M2R13(a int) []string {
	note("M2R13", a)
	return []string{"q"}
}

func (all) M2R14(a int) error2 {
	note("M2R14", a)
	return fail2()
}

func (all) M3R0(ctx context.Context, a int) {
	note("M3R0", ctx, a)
}

func (all) M3R1(ctx context.Context, a int) int {
	note("M3R1", ctx, a)
	return 42
}

func (all) M3R2(ctx context.Context, a int) error {
	note("M3R2", ctx, a)
	return fail()
}

func (all) M3R3(ctx context.Context, a int) (int, error) {
	note("M3R3", ctx, a)
	return 42, fail()
}

func (all) M3R4(ctx context.Context, a int) (error, int) {
	note("M3R4", ctx, a)
	return fail(), 42
}

func (all) M3R5(ctx context.Context, a int) (error, error) {
	note("M3R5", ctx, a)
	return fail(), fail()
}

func (all) M3R6(ctx context.Context, a int) (int, string) {
	note("M3R6", ctx, a)
	return 42, "x"
}

func (all) M3R7(ctx context.Context, a int) (int, string, error) {
	note("M3R7", ctx, a)
	return 42, "x", fail()
}

func (all) M3R8(ctx context.Context, a int) (*rpc.Subscription, error) {
	note("M3R8", ctx, a)
	return theSub, fail()
}

func (all) M3R9(ctx context.Context, a int) (rpc.Subscription, error) {
	note("M3R9", ctx, a)
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M3R10(ctx context.Context, a int) (int, error2) {
	note("M3R10", ctx, a)
	return 42, fail2()
}

func (all) M3R11(ctx context.Context, a int) (interface{}, error) {
	note("M3R11", ctx, a)
	return boxed, fail()
}

func (all) M3R12(ctx context.Context, a int) (error2, int) {
	note("M3R12", ctx, a)
	return fail2(), 42
}

func (all) M3R13(ctx context.Context, a int) []string {
	note("M3R13", ctx, a)
	return []string{"q"}
}

func (all) M3R14(ctx context.Context, a int) error2 {
	note("M3R14", ctx, a)
	return fail2()
}

func (all) M4R0(a int, s string) {
	note("M4R0", a, s)
}

func (all) M4R1(a int, s string) int {
	note("M4R1", a, s)
	return 42
}

func (all) M4R2(a int, s string) error {
	note("M4R2", a, s)
	return fail()
}

func (all) M4R3(a int, s string) (int, error) {
	note("M4R3", a, s)
	return 42, fail()
}

func (all) M4R4(a int, s string) (error, int) {
	note("M4R4", a, s)
	return fail(), 42
}

func (all) M4R5(a int, s string) (error, error) {
	note("M4R5", a, s)
	return fail(), fail()
}

func (all) M4R6(a int, s string) (int, string) {
	note("M4R6", a, s)
	return 42, "x"
}

func (all) M4R7(a int, s string) (int, string, error) {
	note("M4R7", a, s)
	return 42, "x", fail()
}

func (all) M4R8(a int, s string) (*rpc.Subscription, error) {
	note("M4R8", a, s)
	return theSub, fail()
}

func (all) M4R9(a int, s string) (rpc.Subscription, error) {
	note("M4R9", a, s)
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M4R10(a int, s string) (int, error2) {
	note("M4R10", a, s)
	return 42, fail2()
}

func (all) M4R11(a int, s string) (interface{}, error) {
	note("M4R11", a, s)
	return boxed, fail()
}

func (all) M4R12(a int, s string) (error2, int) {
	note("M4R12", a, s)
	return fail2(), 42
}

func (all) M4R13(a int, s string) []string {
	note("M4R13", a, s)
	return []string{"q"}
}

func (all) M4R14(a int, s string) error2 {
	note("M4R14", a, s)
	return fail2()
}

func (all) M5R0(ctx context.Context, a int, s string) {
	note("M5R0", ctx, a, s)
}

func (all) M5R1(ctx context.Context, a int, s string) int {
	note("M5R1", ctx, a, s)
	return 42
}

func (all) M5R2(ctx context.Context, a int, s string) error {
	note("M5R2", ctx, a, s)
	return fail()
}

func (all) M5R3(ctx context.Context, a int, s string) (int, error) {
	note("M5R3", ctx, a, s)
	return 42, fail()
}

func (all) M5R4(ctx context.Context, a int, s string) (error, int) {
	note("M5R4", ctx, a, s)
	return fail(), 42
}

func (all) M5R5(ctx context.Context, a int, s string) (error, error) {
	note("M5R5", ctx, a, s)
	return fail(), fail()
}

func (all) M5R6(ctx context.Context, a int, s string) (int, string) {
	note("M5R6", ctx, a, s)
	return 42, "x"
}

func (all) M5R7(ctx context.Context, a int, s string) (int, string, error) {
	note("M5R7", ctx, a, s)
	return 42, "x", fail()
}

func (all) M5R8(ctx context.Context, a int, s string) (*rpc.Subscription, error) {
	note("M5R8", ctx, a, s)
	return theSub, fail()
}

func (all) M5R9(ctx context.Context, a int, s string) (rpc.Subscription, error) {
	note("M5R9", ctx, a, s)
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M5R10(ctx context.Context, a int, s string) (int, error2) {
	note("M5R10", ctx, a, s)
	return 42, fail2()
}

func (all) M5R11(ctx context.Context, a int, s string) (interface{}, error) {
	note("M5R11", ctx, a, s)
	return boxed, fail()
}

func (all) M5R12(ctx context.Context, a int, s string) (error2, int) {
	note("M5R12", ctx, a, s)
	return fail2(), 42
}

func (all) M5R13(ctx context.Context, a int, s string) []string {
	note("M5R13", ctx, a, s)
	return []string{"q"}
}

func (all) M5R14(ctx context.Context, a int, s string) error2 {
	note("M5R14", ctx, a, s)
	return fail2()
}

func (all) M6R0(ctx context.Context, p *int, l []string) {
	note("M6R0", ctx, p, l)
}

func (all) M6R1(ctx context.Context, p *int, l []string) int {
	note("M6R1", ctx, p, l)
	return 42
}

func (all) M6R2(ctx context.Context, p *int, l []string) error {
	note("M6R2", ctx, p, l)
	return fail()
}

func (all) M6R3(ctx context.Context, p *int, l []string) (int, error) {
	note("M6R3", ctx, p, l)
	return 42, fail()
}

func (all) M6R4(ctx context.Context, p *int, l []string) (error, int) {
	note("M6R4", ctx, p, l)
	return fail(), 42
}

func (all) M6R5(ctx context.Context, p *int, l []string) (error, error) {
	note("M6R5", ctx, p, l)
	return fail(), fail()
}

func (all) M6R6(ctx context.Context, p *int, l []string) (int, string) {
	note("M6R6", ctx, p, l)
	return 42, "x"
}

func (all) M6R7(ctx context.Context, p *int, l []string) (int, string, error) {
	note("M6R7", ctx, p, l)
	return 42, "x", fail()
}

func (all) M6R8(ctx context.Context, p *int, l []string) (*rpc.Subscription, error) {
	note("M6R8", ctx, p, l)
	return theSub, fail()
}

func (all) M6R9(ctx context.Context, p *int, l []string) (rpc.Subscription, error) {
	note("M6R9", ctx, p, l)
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M6R10(ctx context.Context, p *int, l []string) (int, error2) {
	note("M6R10", ctx, p, l)
	return 42, fail2()
}

func (all) M6R11(ctx context.Context, p *int, l []string) (interface{}, error) {
	note("M6R11", ctx, p, l)
	return boxed, fail()
}

func (all) M6R12(ctx context.Context, p *int, l []string) (error2, int) {
	note("M6R12", ctx, p, l)
	return fail2(), 42
}

func (all) M6R13(ctx context.Context, p *int, l []string) []string {
	note("M6R13", ctx, p, l)
	return []string{"q"}
}

func (all) M6R14(ctx context.Context, p *int, l []string) error2 {
	note("M6R14", ctx, p, l)
	return fail2()
}

func (all) M7R0(ctx context.Context, c2 context.Context) {
	note("M7R0", ctx, c2)
}

func (all) M7R1(ctx context.Context, c2 context.Context) int {
	note("M7R1", ctx, c2)
	return 42
}

func (all) M7R2(ctx context.Context, c2 context.Context) error {
	note("M7R2", ctx, c2)
	return fail()
}

func (all) M7R3(ctx context.Context, c2 context.Context) (int, error) {
	note("M7R3", ctx, c2)
	return 42, fail()
}

func (all) M7R4(ctx context.Context, c2 context.Context) (error, int) {
	note("M7R4", ctx, c2)
	return fail(), 42
}

func (all) M7R5(ctx context.Context, c2 context.Context) (error, error) {
	note("M7R5", ctx, c2)
	return fail(), fail()
}

func (all) M7R6(ctx context.Context, c2 context.Context) (int, string) {
	note("M7R6", ctx, c2)
	return 42, "x"
}

func (all) M7R7(ctx context.Context, c2 context.Context) (int, string, error) {
	note("M7R7", ctx, c2)
	return 42, "x", fail()
}

func (all) M7R8(ctx context.Context, c2 context.Context) (*rpc.Subscription, error) {
	note("M7R8", ctx, c2)
	return theSub, fail()
}

func (all) M7R9(ctx context.Context, c2 context.Context) (rpc.Subscription, error) {
	note("M7R9", ctx, c2)
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M7R10(ctx context.Context, c2 context.Context) (int, error2) {
	note("M7R10", ctx, c2)
	return 42, fail2()
}

func (all) M7R11(ctx context.Context, c2 context.Context) (interface{}, error) {
	note("M7R11", ctx, c2)
	return boxed, fail()
}

func (all) M7R12(ctx context.Context, c2 context.Context) (error2, int) {
	note("M7R12", ctx, c2)
	return fail2(), 42
}

func (all) M7R13(ctx context.Context, c2 context.Context) []string {
	note("M7R13", ctx, c2)
	return []string{"q"}
}

func (all) M7R14(ctx context.Context, c2 context.Context) error2 {
	note("M7R14", ctx, c2)
	return fail2()
}

func (all) M8R0(a int, ctx context.Context) {
	note("M8R0", a, ctx)
}

func (all) M8R1(a int, ctx context.Context) int {
	note("M8R1", a, ctx)
	return 42
}

func (all) M8R2(a int, ctx context.Context) error {
	note("M8R2", a, ctx)
	return fail()
}

func (all) M8R3(a int, ctx context.Context) (int, error) {
	note("M8R3", a, ctx)
	return 42, fail()
}

func (all) M8R4(a int, ctx context.Context) (error, int) {
	note("M8R4", a, ctx)
	return fail(), 42
}

func (all) M8R5(a int, ctx context.Context) (error, error) {
	note("M8R5", a, ctx)
	return fail(), fail()
}

func (all) M8R6(a int, ctx context.Context) (int, string) {
	note("M8R6", a, ctx)
	return 42, "x"
}

func (all) M8R7(a int, ctx context.Context) (int, string, error) {
	note("M8R7", a, ctx)
	return 42, "x", fail()
}

func (all) M8R8(a int, ctx context.Context) (*rpc.Subscription, error) {
	note("M8R8", a, ctx)
	return theSub, fail()
}

func (all) M8R9(a int, ctx context.Context) (rpc.Subscription, error) {
	note("M8R9", a, ctx)
	return rpc.Subscription{ID: "0x7"}, fail()
}

func (all) M8R10(a int, ctx context.Context) (int, error2) {
	note("M8R10", a, ctx)
	return 42, fail2()
}

func (all) M8R11(a int, ctx context.Context) (interface{}, error) {
	note("M8R11", a, ctx)
	return boxed, fail()
}

func (all) M8R12(a int, ctx context.Context) (error2, int) {
	note("M8R12", a, ctx)
	return fail2(), 42
}

func (all) M8R13(a int, ctx context.Context) []string {
	note("M8R13", a, ctx)
	return []string{"q"}
}

func (all) M8R14(a int, ctx context.Context) error2 {
	note("M8R14", a, ctx)
	return fail2()
}

var shapes = []shape{
	{"M0R0", 0, 0, false, []string{}, true, false, -1},
	{"M0R1", 0, 1, false, []string{}, true, false, -1},
	{"M0R2", 0, 2, false, []string{}, true, false, 0},
	{"M0R3", 0, 3, false, []string{}, true, false, 1},
	{"M0R4", 0, 4, false, []string{}, false, false, -1},
	{"M0R5", 0, 5, false, []string{}, false, false, -1},
	{"M0R6", 0, 6, false, []string{}, false, false, -1},
	{"M0R7", 0, 7, false, []string{}, false, false, -1},
	{"M0R8", 0, 8, false, []string{}, true, false, 1},
	{"M0R9", 0, 9, false, []string{}, true, false, 1},
	{"M0R10", 0, 10, false, []string{}, true, false, 1},
	{"M0R11", 0, 11, false, []string{}, true, false, 1},
	{"M0R12", 0, 12, false, []string{}, false, false, -1},
	{"M0R13", 0, 13, false, []string{}, true, false, -1},
	{"M0R14", 0, 14, false, []string{}, true, false, 0},
	{"M1R0", 1, 0, true, []string{}, true, false, -1},
	{"M1R1", 1, 1, true, []string{}, true, false, -1},
	{"M1R2", 1, 2, true, []string{}, true, false, 0},
	{"M1R3", 1, 3, true, []string{}, true, false, 1},
	{"M1R4", 1, 4, true, []string{}, false, false, -1},
	{"M1R5", 1, 5, true, []string{}, false, false, -1},
	{"M1R6", 1, 6, true, []string{}, false, false, -1},
	{"M1R7", 1, 7, true, []string{}, false, false, -1},
	{"M1R8", 1, 8, true, []string{}, true, true, 1},
	{"M1R9", 1, 9, true, []string{}, true, true, 1},
	{"M1R10", 1, 10, true, []string{}, true, false, 1},
	{"M1R11", 1, 11, true, []string{}, true, false, 1},
	{"M1R12", 1, 12, true, []string{}, false, false, -1},
	{"M1R13", 1, 13, true, []string{}, true, false, -1},
	{"M1R14", 1, 14, true, []string{}, true, false, 0},
	{"M2R0", 2, 0, false, []string{"int"}, true, false, -1},
	{"M2R1", 2, 1, false, []string{"int"}, true, false, -1},
	{"M2R2", 2, 2, false, []string{"int"}, true, false, 0},
	{"M2R3", 2, 3, false, []string{"int"}, true, false, 1},
	{"M2R4", 2, 4, false, []string{"int"}, false, false, -1},
	{"M2R5", 2, 5, false, []string{"int"}, false, false, -1},
	{"M2R6", 2, 6, false, []string{"int"}, false, false, -1},
	{"M2R7", 2, 7, false, []string{"int"}, false, false, -1},
	{"M2R8", 2, 8, false, []string{"int"}, true, false, 1},
	{"M2R9", 2, 9, false, []string{"int"}, true, false, 1},
	{"M2R10", 2, 10, false, []string{"int"}, true, false, 1},
	{"M2R11", 2, 11, false, []string{"int"}, true, false, 1},
	{"M2R12", 2, 12, false, []string{"int"}, false, false, -1},
	{"M2R13", 2, 13, false, []string{"int"}, true, false, -1},
	{"M2R14", 2, 14, false, []string{"int"}, true, false, 0},
	{"M3R0", 3, 0, true, []string{"int"}, true, false, -1},
	{"M3R1", 3, 1, true, []string{"int"}, true, false, -1},
	{"M3R2", 3, 2, true, []string{"int"}, true, false, 0},
	{"M3R3", 3, 3, true, []string{"int"}, true, false, 1},
	{"M3R4", 3, 4, true, []string{"int"}, false, false, -1},
	{"M3R5", 3, 5, true, []string{"int"}, false, false, -1},
	{"M3R6", 3, 6, true, []string{"int"}, false, false, -1},
	{"M3R7", 3, 7, true, []string{"int"}, false, false, -1},
	{"M3R8", 3, 8, true, []string{"int"}, true, true, 1},
	{"M3R9", 3, 9, true, []string{"int"}, true, true, 1},
	{"M3R10", 3, 10, true, []string{"int"}, true, false, 1},
	{"M3R11", 3, 11, true, []string{"int"}, true, false, 1},
	{"M3R12", 3, 12, true, []string{"int"}, false, false, -1},
	{"M3R13", 3, 13, true, []string{"int"}, true, false, -1},
	{"M3R14", 3, 14, true, []string{"int"}, true, false, 0},
	{"M4R0", 4, 0, false, []string{"int", "string"}, true, false, -1},
	{"M4R1", 4, 1, false, []string{"int", "string"}, true, false, -1},
	{"M4R2", 4, 2, false, []string{"int", "string"}, true, false, 0},
	{"M4R3", 4, 3, false, []string{"int", "string"}, true, false, 1},
	{"M4R4", 4, 4, false, []string{"int", "string"}, false, false, -1},
	{"M4R5", 4, 5, false, []string{"int", "string"}, false, false, -1},
	{"M4R6", 4, 6, false, []string{"int", "string"}, false, false, -1},
	{"M4R7", 4, 7, false, []string{"int", "string"}, false, false, -1},
	{"M4R8", 4, 8, false, []string{"int", "string"}, true, false, 1},
	{"M4R9", 4, 9, false, []string{"int", "string"}, true, false, 1},
	{"M4R10", 4, 10, false, []string{"int", "string"}, true, false, 1},
	{"M4R11", 4, 11, false, []string{"int", "string"}, true, false, 1},
	{"M4R12", 4, 12, false, []string{"int", "string"}, false, false, -1},
	{"M4R13", 4, 13, false, []string{"int", "string"}, true, false, -1},
	{"M4R14", 4, 14, false, []string{"int", "string"}, true, false, 0},
	{"M5R0", 5, 0, true, []string{"int", "string"}, true, false, -1},
	{"M5R1", 5, 1, true, []string{"int", "string"}, true, false, -1},
	{"M5R2", 5, 2, true, []string{"int", "string"}, true, false, 0},
	{"M5R3", 5, 3, true, []string{"int", "string"}, true, false, 1},
	{"M5R4", 5, 4, true, []string{"int", "string"}, false, false, -1},
	{"M5R5", 5, 5, true, []string{"int", "string"}, false, false, -1},
	{"M5R6", 5, 6, true, []string{"int", "string"}, false, false, -1},
	{"M5R7", 5, 7, true, []string{"int", "string"}, false, false, -1},
	{"M5R8", 5, 8, true, []string{"int", "string"}, true, true, 1},
	{"M5R9", 5, 9, true, []string{"int", "string"}, true, true, 1},
	{"M5R10", 5, 10, true, []string{"int", "string"}, true, false, 1},
	{"M5R11", 5, 11, true, []string{"int", "string"}, true, false, 1},
	{"M5R12", 5, 12, true, []string{"int", "string"}, false, false, -1},
	{"M5R13", 5, 13, true, []string{"int", "string"}, true, false, -1},
	{"M5R14", 5, 14, true, []string{"int", "string"}, true, false, 0},
	{"M6R0", 6, 0, true, []string{"*int", "[]string"}, true, false, -1},
	{"M6R1", 6, 1, true, []string{"*int", "[]string"}, true, false, -1},
	{"M6R2", 6, 2, true, []string{"*int", "[]string"}, true, false, 0},
	{"M6R3", 6, 3, true, []string{"*int", "[]string"}, true, false, 1},
	{"M6R4", 6, 4, true, []string{"*int", "[]string"}, false, false, -1},
	{"M6R5", 6, 5, true, []string{"*int", "[]string"}, false, false, -1},
	{"M6R6", 6, 6, true, []string{"*int", "[]string"}, false, false, -1},
	{"M6R7", 6, 7, true, []string{"*int", "[]string"}, false, false, -1},
	{"M6R8", 6, 8, true, []string{"*int", "[]string"}, true, true, 1},
	{"M6R9", 6, 9, true, []string{"*int", "[]string"}, true, true, 1},
	{"M6R10", 6, 10, true, []string{"*int", "[]string"}, true, false, 1},
	{"M6R11", 6, 11, true, []string{"*int", "[]string"}, true, false, 1},
	{"M6R12", 6, 12, true, []string{"*int", "[]string"}, false, false, -1},
	{"M6R13", 6, 13, true, []string{"*int", "[]string"}, true, false, -1},
	{"M6R14", 6, 14, true, []string{"*int", "[]string"}, true, false, 0},
	{"M7R0", 7, 0, true, []string{"context.Context"}, true, false, -1},
	{"M7R1", 7, 1, true, []string{"context.Context"}, true, false, -1},
	{"M7R2", 7, 2, true, []string{"context.Context"}, true, false, 0},
	{"M7R3", 7, 3, true, []string{"context.Context"}, true, false, 1},
	{"M7R4", 7, 4, true, []string{"context.Context"}, false, false, -1},
	{"M7R5", 7, 5, true, []string{"context.Context"}, false, false, -1},
	{"M7R6", 7, 6, true, []string{"context.Context"}, false, false, -1},
	{"M7R7", 7, 7, true, []string{"context.Context"}, false, false, -1},
	{"M7R8", 7, 8, true, []string{"context.Context"}, true, true, 1},
	{"M7R9", 7, 9, true, []string{"context.Context"}, true, true, 1},
	{"M7R10", 7, 10, true, []string{"context.Context"}, true, false, 1},
	{"M7R11", 7, 11, true, []string{"context.Context"}, true, false, 1},
	{"M7R12", 7, 12, true, []string{"context.Context"}, false, false, -1},
	{"M7R13", 7, 13, true, []string{"context.Context"}, true, false, -1},
	{"M7R14", 7, 14, true, []string{"context.Context"}, true, false, 0},
	{"M8R0", 8, 0, false, []string{"int", "context.Context"}, true, false, -1},
	{"M8R1", 8, 1, false, []string{"int", "context.Context"}, true, false, -1},
	{"M8R2", 8, 2, false, []string{"int", "context.Context"}, true, false, 0},
	{"M8R3", 8, 3, false, []string{"int", "context.Context"}, true, false, 1},
	{"M8R4", 8, 4, false, []string{"int", "context.Context"}, false, false, -1},
	{"M8R5", 8, 5, false, []string{"int", "context.Context"}, false, false, -1},
	{"M8R6", 8, 6, false, []string{"int", "context.Context"}, false, false, -1},
	{"M8R7", 8, 7, false, []string{"int", "context.Context"}, false, false, -1},
	{"M8R8", 8, 8, false, []string{"int", "context.Context"}, true, false, 1},
	{"M8R9", 8, 9, false, []string{"int", "context.Context"}, true, false, 1},
	{"M8R10", 8, 10, false, []string{"int", "context.Context"}, true, false, 1},
	{"M8R11", 8, 11, false, []string{"int", "context.Context"}, true, false, 1},
	{"M8R12", 8, 12, false, []string{"int", "context.Context"}, false, false, -1},
	{"M8R13", 8, 13, false, []string{"int", "context.Context"}, true, false, -1},
	{"M8R14", 8, 14, false, []string{"int", "context.Context"}, true, false, 0},
}
