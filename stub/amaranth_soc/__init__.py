"""Minimal stand-in for the parts of amaranth_soc that /repo imports.

amaranth_soc cannot be installed in this sandbox; only the Wishbone
signature is needed by sentinel.top / sentinel.formal / sentinel.gen.
"""
