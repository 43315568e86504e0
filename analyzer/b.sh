#!/bin/bash
cd /verif/analyzer && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor go1.27 build -o bin/an .
