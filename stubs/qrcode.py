class QRCode: pass
