// Package serial is github.com/goburrow/serial on the simulated line.
package serial

import (
	s "github.com/goburrow/serial"

	"verif.local/sim/simserial"
)

type (
	Config      = s.Config
	RS485Config = s.RS485Config
	Port        = s.Port
)

var ErrTimeout = s.ErrTimeout

func New() Port { return simserial.New() }

func Open(c *Config) (Port, error) {
	p := New()
	err := p.Open(c)
	return p, err
}
