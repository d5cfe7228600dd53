#!/bin/bash
cd "$(dirname "$0")/.." && export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo && /opt/venv/bin/python -W ignore gen/properties.py && /opt/venv/bin/python -W ignore gen/manifest.py && /opt/venv/bin/python -W ignore gen/design.py && python3-vt -c "
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
[jsonschema.validate(json.loads(l),s) for l in open('properties.jsonl')]"
