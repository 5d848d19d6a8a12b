package vf

import "strings"

type stringsBuilder = strings.Builder
