#!/usr/bin/env python3
"""Offline set-up: builds the driver and the Java operators once, so that a broken tool chain shows here."""
import check
check.classes(); print(check.build())
