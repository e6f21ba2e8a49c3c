package sdata

// Assumed contracts on the standard library functions the package calls.

import "fmt"

//gcv:for fmt.Errorf
//gcv:nonative
func c_fmt_Errorf(format string, a ...interface{}) error {
	err := fmt.Errorf(format, a...)
	g_ensures("error", err != nil)
	return err
}
