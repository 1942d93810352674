class WishboneCSRBridge:
    pass
