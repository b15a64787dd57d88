"""reference definitions (analysed, never executed)"""
