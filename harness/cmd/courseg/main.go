// Command courseg is course without mkem, for targets that have portable arithmetic only.
package main

import (
	"a0/h/course"
	_ "a0/h/sidh"
)

func main() { course.Main() }
