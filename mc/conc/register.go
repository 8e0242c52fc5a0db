//go:build go1.21

package main

func register(prop string) {
	switch prop {
	case "C11":
		c11register()
	case "C13":
		c13register()
	case "C14":
		c14register()
	case "C15":
		c15register()
	case "C16":
		c16register()
	case "C24":
		c24register()
	case "C05":
		c05register()
	}
}
