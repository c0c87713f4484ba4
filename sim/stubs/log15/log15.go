// Package log15 stands in for the logger of the state manager, which the
// simulator leaves switched off.
package log15

// Info discards the message.
func Info(msg string, ctx ...interface{}) {}
