"""Stand-in for the parts of amaranth_soc that examples/attosoc.py imports
(the package is not installed here).  The Wishbone signature and the address
map are functional; the CSR bus is only there to be imported."""
