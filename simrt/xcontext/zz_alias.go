// Code generated by aliasgen. DO NOT EDIT.

package xcontext

import std "context"

var Background = std.Background
var Canceled = std.Canceled
var DeadlineExceeded = std.DeadlineExceeded
var TODO = std.TODO
var WithValue = std.WithValue
