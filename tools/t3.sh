#!/bin/bash
tools/t2.sh "$@" | grep -v "^def make\|^def arr2\|^    if dt\|^    n = 1\|^    raw =\|^class Sub(Info\|^class Plain\|^class Info\|class Desc\|def __init__(self, v)\|def __get__(self, i, o)\|def __set__(self, i, v)\|class NData\|^import abc, typ"
