package main

import "os"

var dbgSchema = os.Getenv("GOWP_SCHEMA") != ""
