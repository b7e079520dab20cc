# -*- coding: utf-8 -*-
'''A stand-in for javax.crypto as Jython shows it, on the reference cipher.'''
import sys
import types
from . import enc


class GeneralSecurityException(Exception):
    pass


class Bytes(object):
    def __init__(self, b):
        self._b = b

    def __len__(self):
        return len(self._b)

    def tostring(self):
        return self._b


class SecretKeySpec(object):
    def __init__(self, key, algorithm):
        self._key, self._algorithm = bytes(key), algorithm


class Cipher(object):
    ENCRYPT_MODE = 1
    DECRYPT_MODE = 2
    _key = None

    @classmethod
    def getInstance(cls, name):
        if name.upper() not in ('AES/ECB/NOPADDING', 'AES/ECB/PKCS5PADDING',
                                'AES'):
            raise GeneralSecurityException('NoSuchAlgorithm: ' + name)
        x = cls()
        x._pad = not name.upper().endswith('/NOPADDING')
        return x

    def init(self, mode, spec):
        if mode not in (1, 2) or spec._algorithm != 'AES' or \
                len(spec._key) not in (16, 24, 32):
            raise GeneralSecurityException('InvalidKey')
        self._mode, self._key = mode, spec._key

    def getBlockSize(self):
        return 16

    _held = b''

    def update(self, data):
        # (with padding a decrypting cipher keeps its last block back)
        if self._key is None:
            raise GeneralSecurityException('IllegalState')
        self._held += bytes(data)
        n = len(self._held) // 16 * 16
        if self._pad and self._mode == 2 and n == len(self._held):
            n = max(0, n - 16)
        b, self._held = self._held[:n], self._held[n:]
        if not b:
            return None
        return Bytes((enc.aes_ecb_encrypt if self._mode == 1 else
                      enc.aes_ecb_decrypt)(self._key, b))

    def doFinal(self, data=b''):
        data, self._held = self._held + bytes(data), b''
        if self._key is None:
            raise GeneralSecurityException('IllegalState')
        data = bytes(data)
        if self._mode == 1:
            if self._pad:
                n = 16 - len(data) % 16
                data += bytes([n]) * n
            if len(data) % 16:
                raise GeneralSecurityException('IllegalBlockSize')
            return Bytes(enc.aes_ecb_encrypt(self._key, data))
        if len(data) % 16:
            raise GeneralSecurityException('IllegalBlockSize')
        data = enc.aes_ecb_decrypt(self._key, data)
        if self._pad and data:
            n = data[-1]
            if not 1 <= n <= 16 or data[-n:] != bytes([n]) * n:
                raise GeneralSecurityException('BadPadding')
            data = data[:-n]
        return Bytes(data)


def install():
    javax = types.ModuleType('javax')
    crypto = types.ModuleType('javax.crypto')
    spec = types.ModuleType('javax.crypto.spec')
    javax.__path__ = crypto.__path__ = []
    javax.crypto, crypto.spec = crypto, spec
    crypto.Cipher, spec.SecretKeySpec = Cipher, SecretKeySpec
    sys.modules.update({'javax': javax, 'javax.crypto': crypto,
                        'javax.crypto.spec': spec})
