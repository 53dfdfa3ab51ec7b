"""Shared oracle code for the harnesses: written from the protocol and API descriptions, independent of the code under
check. Runs both over symbolic values (lifted) and natively."""
import numpy as np

STX = 254
HDR = 6
CRC = 2
OVER = 8


def popcount(c, x, bits=8):
    """number of set bits of an int"""
    return sum([(x >> i) & 1 for i in range(bits)])


def crc_step(c, crc, byte):
    """CRC-16/MCRF4XX, bit by bit (reflected polynomial 0x8408)"""
    crc = crc ^ byte
    for _ in range(8):
        crc = (crc >> 1) ^ (0x8408 * (crc & 1))
    return crc


def crc16(c, data):
    crc = 0xFFFF
    for b in data:
        crc = crc_step(c, crc, b)
    return crc


def case(name, fn, params=None, **opts):
    return dict(name=name, fn=fn, params=params or {}, opts=opts)
