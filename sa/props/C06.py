from fw import prop
from tables import *
from props.C05 import FONT, font

def hri(n): return {1: 'Above', 49: 'Above', 2: 'Below', 50: 'Below', 3: 'Both', 51: 'Both'}.get(n, 'None')
def word(bs): return add(bs[0], scale(bs[1], 256))
def k(cn, fn, n): return (0x1D, 0x28, 0x6B, n + 2, 0, cn, fn)
C = 'code2d.'
TABLE = [  # bytes, label, operand count, enumerated operand, spec
    ((0x1D, 0x68), 'GS h barcode height', 1, 0, lambda n, b: {'barcode.height': n}),
    ((0x1D, 0x77), 'GS w barcode width', 1, 0, lambda n, b: {} if n > 6 else {'barcode.width': max(n, 2)}),
    ((0x1D, 0x48), 'GS H HRI position', 1, 0, lambda n, b: {'barcode.human_readable': hri(n)}),
    ((0x1D, 0x66), 'GS f HRI font', 1, 0, lambda n, b: {'barcode.font': font(n)}),
    (k(48, 65, 1), 'PDF417 columns', 1, 0, lambda n, b: {C + 'pdf417_columns': n}),
    (k(48, 66, 1), 'PDF417 rows', 1, 0, lambda n, b: {C + 'pdf417_rows': n}),
    (k(48, 67, 1), 'PDF417 module width', 1, 0, lambda n, b: {C + 'pdf417_width': n}),
    (k(48, 70, 1), 'PDF417 truncation', 1, 0, lambda n, b: {C + 'pdf417_is_truncated': n != 0}),
    (k(49, 65, 2), 'QR model', 2, 0, lambda n, b: {C + 'qr_model': {50: 'Model2', 51: 'Micro'}.get(n, 'Model1')}),
    (k(49, 67, 1), 'QR module size', 1, 0, lambda n, b: {C + 'qr_size': n}),
    (k(49, 69, 1), 'QR error correction', 1, 0, lambda n, b: {C + 'qr_error_correction': {1: 'M', 49: 'M', 2: 'Q', 50: 'Q', 3: 'H', 51: 'H'}.get(n, 'L')}),
    (k(50, 65, 1), 'MaxiCode mode', 1, 0, lambda n, b: {C + 'maxicode_mode': n - 48} if 50 <= n <= 54 else {C + 'maxicode_mode': None}),
    (k(51, 67, 1), 'GS1 DataBar width', 1, 0, lambda n, b: {C + 'gs1_databar_width': n}),
    (k(51, 71, 2), 'GS1 DataBar maximum width', 2, -1, lambda n, b: {C + 'gs1_databar_max_width': word(b)}),
    (k(52, 67, 1), 'Composite width', 1, 0, lambda n, b: {C + 'composite_width': n}),
    (k(52, 71, 2), 'Composite maximum width', 2, -1, lambda n, b: {C + 'composite_max_width': word(b)}),
    (k(52, 72, 1), 'Composite HRI font', 1, 0, lambda n, b: {C + 'composite_font': font(n)}),
    (k(53, 66, 2), 'Aztec mode', 2, 0, lambda n, b: {C + 'aztec_mode': 1 if n in (1, 49) else 0, C + 'aztec_layers': None}),
    (k(53, 66, 2), 'Aztec layers', 2, 1, lambda n, b: {C + 'aztec_mode': None, C + 'aztec_layers': n if 1 <= n <= 32 else 0}),
    (k(53, 67, 1), 'Aztec module size', 1, 0, lambda n, b: {C + 'aztec_size': n} if 2 <= n <= 16 else {}),
    (k(53, 69, 1), 'Aztec error correction', 1, 0, lambda n, b: {C + 'aztec_error_correction': n}),
    (k(54, 67, 1), 'DataMatrix module size', 1, 0, lambda n, b: {C + 'datamatrix_width': n}),
    (k(54, 66, 3), 'DataMatrix columns and rows', 3, 0, lambda n, b: {C + 'datamatrix_columns': b[1], C + 'datamatrix_rows': b[2], C + 'datamatrix_type': None} if n in (0, 1, 48, 49) else {}),
]

@prop('C06', 'for each barcode / 2D-code setting: abstract interpretation of the parser on the leading bytes and symbolic operands, then of '
      'process_command from a symbolic Context; each outcome must store the operand in the one field of its own symbology per the ESC/POS '
      'table and leave all other Context fields alone', commands=22, obligations=2000)
def check(c):
    c.S.with_flush_hooks()
    for op, label, n, en, spec in TABLE:
        c.count('commands')
        c.guard(label, run_table, c, op, label, n, spec, sub=en)
