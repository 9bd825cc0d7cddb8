"""The parsers, by format."""
from acltk import ACLConfig
from acltk.fwsmObjects import fwsmConfig
from acltk.iosObjects import iosConfig
from acltk.pfsenseObjects import pfsenseConfig, pfsenseParserOptions
from acltk.cafObjects import cafBlock


def asa(text):
    return fwsmConfig.fromString(text)


def ios(text):
    return iosConfig.fromString(text)


def pf(text, fetch=False):
    return pfsenseConfig.fromString(text, options=pfsenseParserOptions(fetch_urltable=fetch))


def auto(text):
    return ACLConfig.fromString(text)


def caf(text):
    return cafBlock.fromString(text)
