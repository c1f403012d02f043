module verif.local/sim

go 1.26.0

require (
	github.com/goburrow/serial v0.1.0
	github.com/things-go/go-modbus v0.0.0
)
