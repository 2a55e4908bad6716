"""Stand-in for iris.tests."""
import unittest
from unittest import mock  # noqa: F401

import numpy as np
import numpy.testing as npt


class IrisTest(unittest.TestCase):
    def assertStringEqual(self, a, b, *args):
        self.assertEqual(a, b)

    def assertArrayEqual(self, a, b, err_msg=""):
        np.testing.assert_array_equal(a, b, err_msg=err_msg)

    def assertArrayAlmostEqual(self, a, b, decimal=6):
        np.testing.assert_array_almost_equal(a, b, decimal=decimal)

    def assertArrayAllClose(self, a, b, rtol=1.0e-7, atol=1.0e-8, **kwargs):
        np.testing.assert_allclose(a, b, rtol=rtol, atol=atol, **kwargs)

    def assertMaskedArrayEqual(self, a, b, strict=False):
        np.testing.assert_array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
        m = np.ma.getmaskarray(a)
        np.testing.assert_array_equal(np.ma.getdata(a)[~m], np.ma.getdata(b)[~m])

    def patch(self, *args, **kwargs):
        p = mock.patch(*args, **kwargs)
        out = p.start()
        self.addCleanup(p.stop)
        return out


IrisTest_nometa = IrisTest


def main():
    unittest.main()
