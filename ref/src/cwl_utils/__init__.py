# SPDX-License-Identifier: Apache-2.0
"""Python Utilities and Autogenerated Classes for loading and parsing CWL documents."""
