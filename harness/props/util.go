package props

import "strconv"

func itoa(n int) string { return strconv.Itoa(n) }
