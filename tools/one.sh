#!/bin/bash
sed 's#-W ignore -m sim.driver#-W ignore /verif/tools/one.py#' /verif/check.sh > /tmp/one_run.sh; bash /tmp/one_run.sh "$@"
