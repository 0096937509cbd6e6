//go:build race
// +build race

package modbus

const vpRace = true
