#!/usr/bin/env python3
"""Writes known-findings.json: findings that are not repaired, and the repaired ones with commits."""
import json
import os
import subprocess

# (property, start of the commit subject, what failed)
FIXED = [
    ('P03', 'fix: do not repeat tokens of previous lines',
     'removing untagged text from a document of several lines repeated the kept tokens of the lines before'),
    ('D02', 'fix: keep line breaks of namespaced documents',
     'line breaks of documents with a namespace, and sub annotations across line breaks, were lost (also D04)'),
    ('D01', 'fix: keep attributes of the annotated container',
     'attributes of the element that holds the annotated part were dropped'),
    ('D03', 'fix: do not split an element at a sub tag that is ignored',
     'a sub tag that does not belong to the tag split the element'),
    ('S01', 'fix: recognise preserved page numbers with tag prefix',
     'preserved page numbers (b-page) were not recognised by the segmentation'),
    ('P01', 'fix: replace all preserved tags of a line',
     'of several preserved tags on a line only the first one was replaced'),
    ('S01', 'fix: do not find page numbers out of order',
     'page numbers were found between known ones although not increasing'),
    ('B01', 'fix: do not share temporary source files',
     'files processed in parallel removed the working copies of each other (fulltext, figure)'),
    ('B03', 'fix: do not leave incomplete output files',
     'a run killed while saving left an incomplete output that resuming took for complete'),
    ('X01', 'fix: accept xml declaration with encoding',
     'documents with an xml declaration that names an encoding could not be repaired (also D01)'),
    ('X01', 'fix: close the element itself after closing',
     'an end tag that closed unclosed children did not close its own element'),
    ('X01', 'fix: keep the case of element and attribute names',
     'names of elements and attributes became lower case'),
    ('X01', 'fix: keep all of the content when fixing xml',
     'content of title/style elements, CDATA sections and attributes without value were changed'),
    ('X01', 'fix: do not close the root element by an unmatched',
     'a superfluous end tag closed everything'),
    ('L01', 'fix: apply the line number options',
     '--min-line-number-ratio failed with a TypeError, --max-line-number-gap was ignored'),
    ('M02', 'fix: locate the chunks of a text beyond',
     'the parts of a value torn in two were labelled at the wrong place after the first 1000 characters'),
    ('M05', 'fix: restore the labels when only annotating',
     'annotating sub tags only dropped labels that were not also preserved labels'),
    ('M01', 'fix: match the label in front of a field',
     'a label in front of a field was not included if it had capital letters'),
    ('M05', 'fix: label the right tokens with sub annotations',
     'sub annotations were shifted if lower case changes the length of the text'),
    ('Q01', 'fix: check documents of articles without any of the fields',
     'a document whose article has none of the checked fields failed with an error instead of a verdict'),
    ('Q01', 'fix: check fields that are not in any segment',
     'a checked field that belongs to no segment aborted the segmentation tool with a KeyError'),
    ('T01', 'fix: separate the words of elements whose text has several lines',
     'the last word of a text of several lines grew together with the next element'),
    ('T01', 'fix: do not take comments as text of a field',
     'comments and processing instructions became part of the value if elements are ignored'),
    ('T01', 'fix: no empty values when extracting using a regular expression',
     'extracting numbers that are next to each other yielded empty values'),
    ('T01', 'fix: ignore a range with an empty first or last value',
     'an article with an empty first or last page number could not be processed'),
    ('T02', 'fix: keep the options of selected sub fields',
     'options of sub fields were dropped when sub fields were selected'),
    ('J01', 'fix: keep the text after a removed pub-id',
     'the text after an identifier element that was dropped was lost'),
    ('J01', 'fix: keep the order of the text when adding sibling',
     'text after a link that was separated changed its place'),
    ('J01', 'fix: keep the text of annotations with child elements',
     'text of identifiers with child elements was repeated or moved'),
    ('J02', 'fix: accept references with an empty doi or no text before it',
     'a reference with an empty doi, or a doi with nothing before it, failed with a TypeError'),
    ('J02', 'fix: find the right quote of double quotes',
     'titles in typographic double quotes kept what follows them'),
    ('J02', 'fix: stop after annotating an identifier in a comment',
     'an identifier found in a comment was annotated once more in every further citation'),
    ('J01', 'fix: keep the order of the text of comments with child elements',
     'text of comments with child elements changed its order'),
    ('J02', 'fix: only use a doi url prefix directly before the doi',
     'a doi url anywhere in the text before made a link of all the text between'),
    ('J02', 'fix: do not take numbers after a comma as pii',
     'numbers after a comma were annotated as pii'),
    ('J01', 'fix: keep the order of the text of links with child elements',
     'text of joined links with child elements changed its order'),
    ('J02', 'fix: remove white space before the semicolon after a doi',
     'a doi before " ;" kept the white space'),
    ('J03', 'fix: read compressed local files',
     'compressed local articles (.xml.gz) could not be read'),
    ('M06', 'fix: go on matching after a line of symbols only',
     'the complex matcher found nothing behind a line consisting of "*" only'),
    ('M06', 'fix: do not match the next line by the separator in front of it',
     'the complex matcher labelled the first word of the following line, or one token too many of it'),
    ('M06', 'fix: count the next line as matched line too',
     'the complex matcher ignored bonding fields close to the last line of a field of several lines'),
    ('W01', 'fix: do not add a relative base path to the files twice',
     'files of lists with a relative base path were not found'),
    ('W01', 'fix: default to the directory of the file list as base path',
     'without base path, a pattern with {dir} wrote to the sources: it emptied them or added files there'),
    ('W01', 'fix: copy files outside the base path to the output path',
     'with {dir}, files outside the base path were written to their own place, which emptied them'),
    ('P03', 'fix: keep the beginning of annotations when removing untagged tokens',
     'removing untagged text between two elements merged them if the second one begins with white space (also A01)'),
    ('D01', 'fix: read training documents with comments',
     'training documents with comments or processing instructions could not be read (also A01)'),
    ('J02', 'fix: remove quotes around article titles with markup',
     'article titles with markup kept their quotes if a comma follows them'),
]
KNOWN = []

if __name__ == '__main__':
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
    out = []
    for pid, subject, what in FIXED:
        commit = [x.split(' ', 1)[0] for x in log if x.split(' ', 1)[1].startswith(subject)]
        assert len(commit) == 1, (subject, commit)
        out.append({'status': 'fixed', 'property': pid,
                    'what': 'fixed: property=%s %s %s' % (pid, commit[0], what)})
    with open(os.path.join(verif, 'known-findings.json'), 'w') as f:
        json.dump({'findings': KNOWN + out}, f, indent=1)
        f.write('\n')
