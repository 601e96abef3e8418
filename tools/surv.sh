#!/bin/bash
# development: list the kinds of violations seen by 'tsim survey'
sort /verif/work/survey/log | awk -F'\t' '{c[$1]++; if(!($1 in e)) e[$1]=$2"\n      "substr($3,1,'${1:-260}')} END{for(k in c) print c[k], k, e[k]}' | sort -k2
