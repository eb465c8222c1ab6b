#!/bin/bash
export HOME=/root TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= TF_ENABLE_ONEDNN_OPTS=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
