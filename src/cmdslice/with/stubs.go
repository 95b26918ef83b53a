package cmdtest

import testing "flychain/zzslice/ftesting"

var _ *testing.T

// Used only as long as the package has no such function with a body.

func NewTestCmd(t *testing.T, data interface{}) *TestCmd { return &TestCmd{T: t, Data: data} }
