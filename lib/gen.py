"""Generators of inputs. Everything is a function of the random.Random it is given."""
import random
from .vlib import SEED

RESERVED = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', '▁']
MARK = '▁'
SPACES = [' ', ' ', ' ', '  ', '\t', ' \t ', '\u00a0', '\u3000', '\u2003', '\x0b', '\x0c', '\x1c', '\x1f', '\x85', '\u2028', '\u1680', '\u205f', '\u202f']
NICE = list('abcde')
ODD = ['\x00', '\x01', '\x7f', '\u200b', '\ufeff', '\u0301', 'é', 'ß', 'क', 'ष', '्', '中', '文', '😀', '👩', '\u200d', '\U0010ffff', '\ue000', '\ufffd', '<', '>', '#', '{', '"', '\\', '/', '0', 'A', '\x10', 'ا', 'ﷺ', '\u2047', 'İ', '­',
       '-', '.', ',', "'", '&', ';', '@', '_', '%', '=', '|', ':', '+', '*', '~', '^', '$', '(', '}', '!', '?', 'Z', '9', 'ı', 'ſ', 'ﬁ', 'K', 'Ω', '한', 'ｱ']
NATURAL = ['pre-', '-ing', "don't", 'U.S.', '10,000', '&amp;', 'http://a.b/', 'e.g.', '3.14', 'A', 'The', 'the', 'THE', '...', '--', '@@', '@-@', 'x@@',
           '(a)', '$5', '100%', 'naïve', 'naïve', 'Straße', 'null', 'None', 'nan', 'NaN', '0', '00', '1', '-1', '1e5', 'True', '“q”', '##ing', '</w>', '_x', '▁x', '\\n', '\\t', '\\u00e9', '%s', '{}', '<unk', 'unk>']


def rng(*tag):
    return random.Random(repr((SEED,) + tag))


def word(r, alpha, lo=1, hi=6):
    return ''.join(r.choice(alpha) for _ in range(r.randint(lo, hi)))


def alphabet(r, n=None):
    n = n or r.randint(1, 5)
    k = r.random()
    if k < 0.6:
        return NICE[:n]
    if k < 0.8:
        return r.sample(ODD, min(n, len(ODD)))
    return NICE[:max(1, n - 1)] + [r.choice(ODD)]


def repeaty(r, alpha):
    """words with runs and overlaps"""
    out = ''
    while not out or r.random() < 0.5:
        k = r.random()
        if k < 0.35:
            out += r.choice(alpha) * r.randint(1, 9)
        elif k < 0.6:
            out += (r.choice(alpha) + r.choice(alpha)) * r.randint(1, 5)
        else:
            out += word(r, alpha, 1, 4)
    return out[:24]


def longword(r, alpha):
    """beyond any reasonable length"""
    out = ''
    n = r.choice([40, 70, 110, 130, 180, 260])
    while len(out) < n:
        out += repeaty(r, alpha)
    return out[:n]


def giant(r, alpha):
    """a rule of dashes, a run: merging makes pieces of hundreds and thousands of characters of it"""
    unit = r.choice([r.choice(alpha), r.choice(alpha), r.choice(alpha) + r.choice(alpha), '-'])
    n = r.choice([520, 700, 1030, 1500, 2200])
    return (unit * n)[:n]


def giants(r, alpha):
    """lines with such words; few enough merges make one piece of a word"""
    g = [giant(r, alpha) for _ in range(r.choice([1, 1, 2]))]
    return [r.choice(g) + r.choice(['', ' ' + word(r, alpha)]) for _ in range(r.randint(2, 4))] + g


def line(r, words, spaces=None, lo=0, hi=6, edges=True):
    """words joined by (possibly exotic) white space"""
    spaces = spaces or (SPACES if r.random() < 0.4 else [' '])
    n = r.randint(lo, hi)
    out = r.choice(spaces) if edges and r.random() < 0.2 else ''
    for i in range(n):
        if i:
            out += r.choice(spaces)
        out += r.choice(words)
    if edges and r.random() < 0.2:
        out += r.choice(spaces)
    return out


def longline(r, words, n=None):
    """a line over every small limit on the number of words and characters"""
    n = n or r.choice([300, 600, 1100, 1500])
    return ' '.join(r.choice(words) for _ in range(n))


def crowd(r, alpha, n_types=None, n_lines=None):
    """lines of many different words; some words are frequent"""
    n_types = n_types or r.choice([150, 400, 700])
    words = list(dict.fromkeys(word(r, alpha, 1, 7) for _ in range(n_types)))
    words += words[:20] * 4
    return [' '.join(r.choices(words, k=r.randint(0, 5))) for _ in range(n_lines or r.choice([300, 1100, 2100]))] + [words[0]]


def corpus(r, alpha=None, n_types=None, n_lines=None, reserved=0.0):
    """list of lines over a small set of words, repeated with different frequencies"""
    alpha = alpha or alphabet(r)
    n_types = n_types or r.randint(1, 8)
    types = []
    natural = r.random() < 0.15
    for _ in range(n_types):
        types.append(r.choice(NATURAL) if natural and r.random() < 0.7 else repeaty(r, alpha) if r.random() < 0.5 else word(r, alpha, 1, 7))
    if r.random() < reserved:
        types += r.sample(RESERVED + ['a▁b', '▁▁', '<s', '<unk>x'], r.randint(1, 3))
    if r.random() < .06:
        types.append(longword(r, alpha))
    weighted = [t for t in types for _ in range(r.choice([1, 1, 2, 3, 7]))]
    n_lines = n_lines or r.randint(1, 12)
    out = [line(r, weighted, lo=0, hi=8) for _ in range(n_lines)]
    if not any(l.split() for l in out):
        out.append(r.choice(types))
    return out


def no_bom(lines):
    """a byte order mark in front of a file is not text to Spark (nor to utf-8-sig): not generated there"""
    return ['a' + lines[0]] + lines[1:] if lines and lines[0].startswith('\ufeff') else lines
