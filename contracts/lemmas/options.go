package modbus

// Ghost functions: never compiled into the library, checked by the verifier
// together with it. They compose functions of the library so that a contract
// can speak about the composition.

import (
	"time"

	"github.com/goburrow/serial"
)

func lemmaClientMin(p ClientProvider, lo byte) Client { return NewClient(p, WithAddressMin(lo)) }
func lemmaClientMax(p ClientProvider, hi byte) Client { return NewClient(p, WithAddressMax(hi)) }
func lemmaClientMinMax(p ClientProvider, lo, hi byte) Client {
	return NewClient(p, WithAddressMin(lo), WithAddressMax(hi))
}
func lemmaClientMaxMin(p ClientProvider, lo, hi byte) Client {
	return NewClient(p, WithAddressMax(hi), WithAddressMin(lo))
}
func lemmaClientMinTwice(p ClientProvider, lo, hi byte) Client {
	return NewClient(p, WithAddressMin(lo), WithAddressMin(hi))
}
func lemmaTCPTimeout(p *TCPClientProvider, t time.Duration)     { WithTCPTimeout(t)(p) }
func lemmaTCPSerial(p *TCPClientProvider, c serial.Config)      { WithSerialConfig(c)(p) }
func lemmaTCPLog(p *TCPClientProvider, l LogProvider)           { WithLogProvider(l)(p) }
func lemmaTCPEnable(p *TCPClientProvider)                       { WithEnableLogger()(p) }
func lemmaRTUTimeout(p *RTUClientProvider, t time.Duration)     { WithTCPTimeout(t)(p) }
func lemmaRTUSerial(p *RTUClientProvider, c serial.Config)      { WithSerialConfig(c)(p) }
func lemmaRTULog(p *RTUClientProvider, l LogProvider)           { WithLogProvider(l)(p) }
func lemmaRTUEnable(p *RTUClientProvider)                       { WithEnableLogger()(p) }
func lemmaASCIITimeout(p *ASCIIClientProvider, t time.Duration) { WithTCPTimeout(t)(p) }
func lemmaASCIISerial(p *ASCIIClientProvider, c serial.Config)  { WithSerialConfig(c)(p) }
func lemmaASCIILog(p *ASCIIClientProvider, l LogProvider)       { WithLogProvider(l)(p) }
func lemmaASCIIEnable(p *ASCIIClientProvider)                   { WithEnableLogger()(p) }

func lemmaNewTCP(addr string, t time.Duration, l LogProvider) *TCPClientProvider {
	return NewTCPClientProvider(addr, WithTCPTimeout(t), WithLogProvider(l), WithEnableLogger())
}

func lemmaNewRTU(c serial.Config, l LogProvider) *RTUClientProvider {
	return NewRTUClientProvider(WithEnableLogger(), WithSerialConfig(c), WithLogProvider(l))
}

func lemmaNewASCII(c serial.Config, l LogProvider) *ASCIIClientProvider {
	return NewASCIIClientProvider(WithLogProvider(l), WithEnableLogger(), WithSerialConfig(c))
}
