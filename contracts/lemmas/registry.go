package modbus

func lemmaAdd0(sf *serverCommon)                        { sf.AddNodes() }
func lemmaAdd1(sf *serverCommon, a *NodeRegister)       { sf.AddNodes(a) }
func lemmaAdd2(sf *serverCommon, a, b *NodeRegister)    { sf.AddNodes(a, b) }
func lemmaAdd3(sf *serverCommon, a, b, c *NodeRegister) { sf.AddNodes(a, b, c) }
