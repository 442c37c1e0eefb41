class SHA256: pass
