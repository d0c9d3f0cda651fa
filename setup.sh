#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Verify that the interpreter and the simulator start.
cd "$(dirname "$0")" || exit 2
exec "${DST_PYTHON:-/opt/venv/bin/python}" -W ignore -c 'import dst.seams as s; s.install(); import lxml.etree, requests, flask, django, jinja2; print("ok")'
